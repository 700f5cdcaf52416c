"""A small relational model of pandas tables whose column names and row count are known.

Switched on per run (I.tables); every other table stays an opaque value.  Cells are abstract values; an operation whose
outcome depends on a cell that is not known gives an opaque value.
"""
import ast
from .core import *
from .values import unknown

NAN = float('nan')
FAIL = object()
_PY = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
       ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
_OPN = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE}
_ARN = {'sub': ast.Sub, 'add': ast.Add, 'mul': ast.Mult, 'div': ast.Div, 'truediv': ast.Div}
NP1 = ('abs', 'absolute', 'fabs', 'argmin', 'argmax', 'nanargmin', 'nanargmax', 'min', 'max', 'amin', 'amax', 'nanmin', 'nanmax', 'array',
       'asarray', 'where', 'flatnonzero', 'argsort', 'any', 'all', 'isclose', 'logical_and', 'logical_or', 'logical_not', 'equal',
       'unique', 'size', 'count_nonzero', 'sum', 'isin', 'square')


class Tables:
    def __init__(self, I):
        self.I = I
        self.disk = {}          # path -> (columns, rows) as written
        self.log = []           # ('load'|'store', path)
        for n in NP1:
            I.ext_hooks['numpy.' + n] = self.np(n)
        for n in ('abs', 'len', 'min', 'max', 'list', 'sorted', 'any', 'all', 'sum'):
            I.ext_hooks['builtins.' + n] = self.np('size' if n == 'len' else n)
        I.ext_hooks['pandas.DataFrame'] = self.frame
        I.ext_hooks['pandas.Series'] = self.mkseries
        I.ext_hooks['pandas.concat'] = self.concat
        I.ext_hooks['pandas.read_csv'] = self.read
        I.ext_hooks['os.path.exists'] = I.ext_hooks['os.path.isfile'] = self.exists
        I.ext_hooks['os.path.abspath'] = self.abspath

    # ---------------------------------------------------------------- making
    def table(self, st, node, cols, index, rows, k='tab'):
        flat = tuple(x for r in rows for x in r)
        return self.I.new(st, node, 'opaque', k=(k, len(rows)), items=flat, extra=('table', tuple(cols), tuple(index)))

    def series(self, st, node, index, vals, name=None, k='ser'):
        return self.I.new(st, node, 'opaque', k=(k, len(vals)), items=tuple(vals), extra=('series', tuple(index), name))

    def ser(self, st, node, vals):
        return self.series(st, node, range(len(vals)), vals)

    def is_tab(self, o):
        return o is not None and o.kind == 'opaque' and isinstance(o.extra, tuple) and o.extra and \
            o.extra[0] in ('table', 'series', 'acc') and o.items is not None

    def get(self, st, v):
        if v is None or len(v.objs) != 1 or v.consts or v.any:
            return None
        o = st.heap.get(next(iter(v.objs)))
        return o if self.is_tab(o) else None

    @staticmethod
    def rows(o):
        n = len(o.extra[1])
        return [o.items[i * n:(i + 1) * n] for i in range(len(o.extra[2]))] if n else [() for _ in o.extra[2]]

    @staticmethod
    def py(v):
        s = v.single()
        if s is None:
            raise KeyError
        return s[0]

    def seq(self, st, v):
        """The elements of a list, tuple, array or series value."""
        o = self.get(st, v)
        if o is not None and o.extra[0] == 'series':
            return list(o.items)
        if len(v.objs) == 1 and not v.consts and not v.any:
            o = st.heap.get(next(iter(v.objs)))
            if o.kind in ('list', 'tuple', 'array') and o.items is not None:
                return list(o.items)
            if o.kind == 'slice':
                return None
        return None

    # ---------------------------------------------------------------- pandas functions
    def guard(f):
        def g(self, I, st, node, args, kw):
            try:
                return f(self, st, node, [a for a in args if isinstance(a, AV)], kw)
            except (KeyError, IndexError, TypeError, ValueError):
                return None
        return g

    @guard
    def frame(self, st, node, args, kw):
        data = args[0] if args else kw.get('data')
        cols = kw.get('columns', args[2] if len(args) > 2 else None)
        names = [self.py(c) for c in self.seq(st, cols)] if cols is not None else None
        if data is None:
            return self.table(st, node, names or (), (), ())
        o = self.I.one(st, data, 'dict')
        if o is not None and o.elem is None:
            d = {k[1] if isinstance(k, tuple) else k: v[0] for k, v in o.items.items()}
            cs = {k: self.seq(st, v) for k, v in d.items()}
            n = max(len(c) for c in cs.values() if c is not None)
            names = names or list(cs)
            rows = [[cs[k][i] if cs[k] is not None else d[k] for k in names] for i in range(n)]
            return self.table(st, node, names, range(n), rows)
        rows = []
        for r in self.seq(st, data):
            o = self.I.one(st, r, 'dict')
            if o is not None:
                d = {k[1] if isinstance(k, tuple) else k: v[0] for k, v in o.items.items()}
                names = names or list(d)
                rows.append([d[k] for k in names])
            else:
                rows.append(self.seq(st, r))
        if names is None or any(len(r) != len(names) for r in rows):
            return None
        return self.table(st, node, names, range(len(rows)), rows)

    @guard
    def mkseries(self, st, node, args, kw):
        return self.ser(st, node, self.seq(st, args[0]))

    @guard
    def concat(self, st, node, args, kw):
        parts = [self.get(st, x) for x in self.seq(st, args[0])]
        if any(p is None or p.extra[0] != 'table' for p in parts):
            return None
        cols = next((p.extra[1] for p in parts if p.extra[1]), ())
        rows, idx = [], []
        for p in parts:
            if len(p.extra[2]) == 0:
                continue
            if set(p.extra[1]) != set(cols):
                return None
            for i, r in zip(p.extra[2], self.rows(p)):
                d = dict(zip(p.extra[1], r))
                rows.append([d[c] for c in cols])
                idx.append(i)
        if 'ignore_index' in kw and kw['ignore_index'].single() == (True,):
            idx = range(len(rows))
        return self.table(st, node, cols, idx, rows)

    @guard
    def read(self, st, node, args, kw):
        p = self.py(args[0])
        if p not in self.disk:
            return None
        self.log.append(('load', p))
        cols, rows = self.disk[p]
        types = {}
        if 'dtype' in kw:
            o = self.I.one(st, kw['dtype'], 'dict')
            if o is None or o.elem is not None:
                return None
            for k, v in o.items.items():
                e = self.I.one(st, v[0], 'ext')
                types[k[1]] = e.extra.split('.')[-1].rstrip('_0123456789') if e is not None else self.py(v[0])
        if set(kw) - {'dtype', 'header', 'sep', 'filepath_or_buffer'}:
            return None
        out = [[] for _ in rows]
        for j, c in enumerate(cols):
            vals = [self.py(r[j]) for r in rows]
            for r, v in zip(out, self.parsed(vals, types.get(c))):
                if v is FAIL:
                    self.bad(st, node)
                r.append(const(v))
        return self.table(st, node, cols, range(len(rows)), out)

    @staticmethod
    def parsed(vals, t):
        """The cells of a column as read back from text."""
        texts = ['' if v is None or v != v else str(v) for v in vals]
        num = []
        for x in texts:
            try:
                num.append(float(x) if x else NAN)
            except ValueError:
                num = None
                break
        if t in ('str', 'object', 'string'):
            return [x if x else NAN for x in texts]
        if t == 'float':
            return num if num is not None else [FAIL] * len(vals)
        if t == 'int':
            return [int(v) if v == v and v == int(v) else FAIL for v in num] if num is not None else [FAIL] * len(vals)
        if t not in (None, 'bool'):
            return [FAIL] * len(vals)
        if num is None:
            return [x if x else NAN for x in texts]
        if all(v == v and v == int(v) and '.' not in x and 'e' not in x for v, x in zip(num, texts)):
            return [int(v) for v in num]
        return num

    @guard
    def exists(self, st, node, args, kw):
        p = self.py(args[0])
        return const(p in self.disk) if isinstance(p, str) else None

    @guard
    def abspath(self, st, node, args, kw):
        p = self.py(args[0])
        return args[0] if p[:1] == '/' else None

    def np(self, name):
        def f(I, st, node, args, kw):
            a = [x for x in args if isinstance(x, AV)]
            if not a or not any(self.get(st, x) is not None or (name in ('argsort', 'argmin', 'argmax', 'where', 'flatnonzero', 'abs') and
                                self.known_list(st, x)) for x in a):
                return None
            try:
                return self.npcall(st, node, name, a, kw)
            except (KeyError, IndexError, TypeError, ValueError):
                return None
        return f

    def known_list(self, st, v):
        s = self.seq(st, v) if v.objs else None
        return bool(s) and all(x.single() is not None for x in s)

    def npcall(self, st, node, name, a, kw):
        o = self.get(st, a[0])
        if name == 'size' and o is not None:
            return const(len(o.extra[2] if o.extra[0] == 'table' else o.items))
        vals = self.seq(st, a[0])
        if vals is None:
            return None
        if name in ('abs', 'absolute', 'fabs', 'square', 'logical_not'):
            f = {'square': lambda x: x * x, 'logical_not': lambda x: not x}.get(name, abs)
            vs = [const(f(self.py(v))) for v in vals]
            return self.series(st, node, o.extra[1], vs) if o is not None and o.extra[0] == 'series' else self.ser(st, node, vs)
        if name in ('array', 'asarray'):
            return self.ser(st, node, vals)
        if name == 'list':
            return self.I.mklist(st, node, list(self.iterate(st, o, node)))
        ps = [self.py(v) for v in vals]
        if name in ('argmin', 'nanargmin', 'argmax', 'nanargmax'):
            good = [p for p in ps if p == p]
            return const(ps.index((min if 'min' in name else max)(good))) if good else self.bad(st, node)
        if name in ('min', 'amin', 'nanmin') and len(a) == 1 and not kw:
            return const(min(ps)) if ps else self.bad(st, node)
        if name in ('max', 'amax', 'nanmax') and len(a) == 1 and not kw:
            return const(max(ps)) if ps else self.bad(st, node)
        if name in ('sum', 'count_nonzero'):
            return const(sum(bool(p) for p in ps) if name[0] == 'c' else sum(ps))
        if name in ('any', 'all'):
            return const(any(ps) if name == 'any' else all(ps))
        if name == 'argsort':
            return self.ser(st, node, [const(i) for i in sorted(range(len(ps)), key=lambda i: ps[i])])
        if name == 'sorted' and not kw:
            return self.I.mklist(st, node, [const(p) for p in sorted(ps)])
        if name == 'unique':
            return self.ser(st, node, [const(p) for p in sorted(set(ps))])
        if name in ('where', 'flatnonzero') and len(a) == 1:
            r = self.ser(st, node, [const(i) for i, p in enumerate(ps) if p])
            return r if name != 'where' else self.I.new(st, node, 'tuple', k='whr', items=(r,))
        if name in ('logical_and', 'logical_or', 'equal', 'isclose') and len(a) > 1:
            other = self.seq(st, a[1])
            qs = [self.py(v) for v in other] if other is not None else [self.py(a[1])] * len(ps)
            f = {'logical_and': lambda x, y: bool(x and y), 'logical_or': lambda x, y: bool(x or y), 'equal': lambda x, y: x == y,
                 'isclose': lambda x, y: abs(x - y) <= 1e-8 + 1e-5 * abs(y)}[name]
            return self.series(st, node, o.extra[1] if o is not None else range(len(ps)), [const(f(x, y)) for x, y in zip(ps, qs)])
        if name == 'isin' and len(a) > 1:
            qs = [self.py(v) for v in self.seq(st, a[1])]
            return self.ser(st, node, [const(p in qs) for p in ps])
        return None

    def bad(self, st, node):
        self.I.die(st, ('ValueError', 'Exception', 'BaseException', 'object'), node)

    # ---------------------------------------------------------------- operators
    def binop(self, st, a, op, b, node):
        oa, ob = self.get(st, a), self.get(st, b)
        if oa is None and ob is None:
            return None
        try:
            return self.zipped(st, node, oa, a, ob, b, lambda x, y: self.cell(st, x, op, y, node))
        except (KeyError, IndexError, TypeError, ValueError):
            return unknown()

    def cell(self, st, x, op, y, node):
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            p, q = self.py(x), self.py(y)
            return const(p & q if isinstance(op, ast.BitAnd) else p | q)
        r = self.I.models.binop(st, x, op, y, node)
        if r.single() is None:
            raise KeyError
        return r

    def zipped(self, st, node, oa, a, ob, b, f):
        for o in (oa, ob):
            if o is not None and o.extra[0] != 'series':
                raise TypeError
        other = None
        if oa is not None and ob is None:
            other = self.seq(st, b)
        elif ob is not None and oa is None:
            other = self.seq(st, a)
        if oa is not None and ob is not None:
            da, db = oa.extra[1], ob.extra[1]
            if da == db or len(da) == len(db) and (tuple(da) == tuple(range(len(da))) or tuple(db) == tuple(range(len(db)))):
                ys = ob.items
            else:
                m = dict(zip(db, ob.items))
                ys = [m[i] for i in da]
            return self.series(st, node, da, [f(x, y) for x, y in zip(oa.items, ys)], oa.extra[2])
        o = oa or ob
        ys = other if other is not None else [b if oa is not None else a] * len(o.items)
        if len(ys) != len(o.items):
            raise ValueError
        return self.series(st, node, o.extra[1], [f(x, y) if oa is not None else f(y, x) for x, y in zip(o.items, ys)], o.extra[2])

    def compare(self, st, a, op, b, node):
        oa, ob = self.get(st, a), self.get(st, b)
        if oa is None and ob is None or isinstance(op, (ast.Is, ast.IsNot)):
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, ob, a) if ob is not None else None
            return None if r is None else const(r != isinstance(op, ast.NotIn))
        try:
            f = _PY[type(op)]
            return self.zipped(st, node, oa, a, ob, b, lambda x, y: const(f(self.py(x), self.py(y))))
        except (KeyError, IndexError, TypeError, ValueError):
            return unknown()

    def contains(self, st, o, item):
        try:
            x = self.py(item)
            if o.extra[0] == 'acc':
                return any(self.py(v) == x for v in self.target(st, o).items)
            if o.extra[0] == 'table':
                return x in o.extra[1]
            if o.extra[2] == '!values':
                return any(self.py(v) == x for v in o.items)
            return x in o.extra[1]
        except KeyError:
            return None

    def unop(self, st, op, v, node):
        o = self.get(st, v)
        if o is None or o.extra[0] != 'series':
            return None
        try:
            f = {ast.Invert: lambda x: not x, ast.USub: lambda x: -x, ast.UAdd: lambda x: x}[type(op)]
            return self.series(st, node, o.extra[1], [const(f(self.py(x))) for x in o.items], o.extra[2])
        except (KeyError, TypeError):
            return unknown()

    # ---------------------------------------------------------------- attributes and items
    def target(self, st, o):
        return st.heap[next(iter(o.items[0].objs))]

    def attr(self, st, oid, o, name, node):
        k = o.extra[0]
        if k == 'acc' and o.extra[1] == 'groups':
            gs = self.groups(st, o)
            if name in ('indices', 'groups'):
                t = self.target(st, o)
                return self.I.new(st, node, 'dict', k='gbi', items={
                    (('tuple', g) if isinstance(g, tuple) else C(int(g) if isinstance(g, float) and g == int(g) else g)):
                    (self.I.mkarr(st, node, items=tuple(const(i if name == 'indices' else t.extra[2][i]) for i in ps), k=('gb', g)), 'y')
                    for g, ps in gs})
            if name == 'ngroups':
                return const(len(gs))
            return None
        if k == 'acc':
            if name in ('shape',):
                return self.attr(st, None, self.target(st, o), name, node)
            return None
        n = len(o.extra[2]) if k == 'table' else len(o.items)
        if name == 'shape':
            dims = [n, len(o.extra[1])] if k == 'table' else [n]
            return self.I.new(st, node, 'tuple', k='shp', items=tuple(const(d) for d in dims))
        if name == 'size':
            return const(n * len(o.extra[1]) if k == 'table' else n)
        if name == 'empty':
            return const(n == 0)
        if name == 'index':
            return self.values(st, node, [const(i) for i in (o.extra[2] if k == 'table' else o.extra[1])])
        if name == 'columns' and k == 'table':
            return self.values(st, node, [const(c) for c in o.extra[1]])
        if name == 'values':
            if k == 'series':
                return self.values(st, node, o.items)
            return self.I.new(st, node, 'opaque', k='acv', items=(obj(oid),), extra=('acc', 'values'))
        if name in ('loc', 'iloc', 'at', 'iat'):
            return self.I.new(st, node, 'opaque', k='ac' + name, items=(obj(oid),), extra=('acc', {'at': 'loc', 'iat': 'iloc'}.get(name, name)))
        if k == 'table' and name in o.extra[1]:
            return self.column(st, node, o, name)
        if k == 'series' and name in o.extra[1]:
            return o.items[o.extra[1].index(name)]
        return None

    def groups(self, st, o):
        """[(key, positions)] of a groupby, in the order pandas gives them."""
        t = self.target(st, o)
        cols, scalar, order = o.extra[2]
        rows = self.rows(t)
        js = [t.extra[1].index(c) for c in cols]
        out = {}
        for i, r in enumerate(rows):
            key = tuple(self.py(r[j]) for j in js)
            if any(x is None or x != x for x in key):
                continue
            out.setdefault(key, []).append(i)
        return [(k[0] if scalar else k, out[k]) for k in (sorted(out) if order else out)]

    def turned(self, st, o, node):
        """The transpose of an array made of rows whose cells are known, or None."""
        if o.items is None or not o.items:
            return None
        rows = []
        for x in o.items:
            r = self.I.one(st, x, 'array')
            if r is None or r.items is None or any(c.single() is None for c in r.items):
                return None
            rows.append(r.items)
        if len({len(r) for r in rows}) != 1 or not rows[0]:
            return None
        return self.I.mkarr(st, node, items=tuple(self.I.mkarr(st, node, items=tuple(r[i] for r in rows), k=('tr', i))
                                                  for i in range(len(rows[0]))), k='T')

    def uniform(self, st, o):
        """numpy makes strings of all cells of an array if one is a string (and floats if one is a float)."""
        flat = []
        def walk(items):
            for x in items:
                r = self.I.one(st, x, 'array')
                if r is not None and r.items is not None:
                    walk(r.items)
                else:
                    flat.append(x)
        walk(o.items)
        vs = [x.single() for x in flat]
        if any(v is None for v in vs):
            return
        ts = {type(v[0]) for v in vs}
        if len(ts) < 2 or not ts <= {str, int, float, bool}:
            return
        f = str if str in ts else float if float in ts else int
        def redo(items):
            out = []
            for x in items:
                r = self.I.one(st, x, 'array')
                if r is not None and r.items is not None:
                    (q,) = x.objs
                    st.heap[q] = st.heap[q].repl(items=redo(r.items))
                    out.append(x)
                else:
                    out.append(const(f(x.single()[0])).with_tags(x.tags, x.ctl))
            return tuple(out)
        return redo(o.items)

    def values(self, st, node, vals):
        return self.series(st, node, range(len(vals)), vals, '!values', k='vals')

    def column(self, st, node, o, c):
        j = o.extra[1].index(c)
        return self.series(st, node, o.extra[2], [r[j] for r in self.rows(o)], c, k=('col', c))

    def pick(self, st, node, o, pos):
        """The rows of a table, or elements of a series, at positions."""
        if o.extra[0] == 'table':
            rs = self.rows(o)
            return self.table(st, node, o.extra[1], [o.extra[2][p] for p in pos], [rs[p] for p in pos])
        return self.series(st, node, [o.extra[1][p] for p in pos], [o.items[p] for p in pos], o.extra[2])

    def positions(self, st, o, k, by):
        """Positions a row key selects; a single int for a scalar key."""
        index = o.extra[2] if o.extra[0] == 'table' else o.extra[1]
        s = k.single()
        if s is not None:
            if by == 'iloc':
                p = s[0]
                if not isinstance(p, int) or not -len(index) <= p < len(index):
                    raise IndexError
                return p % len(index)
            return list(index).index(s[0])
        so = st.heap.get(next(iter(k.objs))) if len(k.objs) == 1 else None
        if so is not None and so.kind == 'slice':
            pv = [None if x.single() is None else x.single()[0] for x in so.items]
            if any(x.single() is None for x in so.items):
                raise KeyError
            if by == 'loc' and (pv[0] is not None or pv[1] is not None):
                raise KeyError
            return list(range(len(index)))[slice(*pv)]
        vals = self.seq(st, k)
        if vals is None:
            raise KeyError
        ps = [self.py(v) for v in vals]
        ko = self.get(st, k)
        if ps and all(isinstance(p, bool) for p in ps) or (not ps and not len(index)) or \
                (not ps and ko is not None and ko.extra[2] != '!values'):
            if ko is not None and ko.extra[0] == 'series' and ko.extra[2] != '!values' and by != 'iloc' and len(ps) == len(index) and \
                    set(ko.extra[1]) == set(index):
                m = dict(zip(ko.extra[1], ps))
                return [i for i, x in enumerate(index) if m[x]]
            if len(ps) != len(index):
                raise ValueError
            return [i for i, p in enumerate(ps) if p]
        if by == 'iloc':
            return [p % len(index) if -len(index) <= p < len(index) else self.oops() for p in ps]
        return [list(index).index(p) for p in ps]

    def oops(self):
        raise IndexError

    def getitem(self, st, oid, o, k, node):
        try:
            return self.getitem1(st, o, k, node)
        except (KeyError, IndexError, TypeError, ValueError):
            if o.extra[0] == 'acc' and k.single() is not None or self.key_known(st, k):
                self.I.die(st, ('IndexError', 'LookupError', 'Exception', 'BaseException', 'object'), node)
            return unknown()

    def key_known(self, st, k):
        o = self.I.one(st, k, 'tuple')
        return o is not None and o.items is not None and all(x.single() is not None for x in o.items)

    def getitem1(self, st, o, k, node):
        kind = o.extra[0]
        if kind == 'acc':
            t = self.target(st, o)
            by = {'values': 'iloc'}.get(o.extra[1], o.extra[1])
            ko = self.I.one(st, k, 'tuple')
            if ko is not None and t.extra[0] == 'table':
                row, col = ko.items
                pos = self.positions(st, t, row, by)
                sub = self.pick(st, node, t, [pos] if isinstance(pos, int) else pos)
                so = self.get(st, sub)
                if col.single() is not None:
                    c = col.single()[0]
                    if by == 'iloc':
                        c = so.extra[1][c]
                    ser = self.column(st, node, so, c)
                    return self.get(st, ser).items[0] if isinstance(pos, int) else ser
                cs = self.seq(st, col)
                names = list(so.extra[1]) if cs is None else [self.py(c) for c in cs]
                if cs is None and any(x.single() != (None,) for x in st.heap[next(iter(col.objs))].items):
                    raise KeyError
                if by == 'iloc' and cs is not None:
                    names = [so.extra[1][c] for c in names]
                rows = [[r[so.extra[1].index(c)] for c in names] for r in self.rows(so)]
                if isinstance(pos, int):
                    return self.series(st, node, names, rows[0])
                return self.table(st, node, names, so.extra[2], rows, k='tcs')
            pos = self.positions(st, t, k, by)
            if isinstance(pos, int):
                if t.extra[0] == 'table':
                    return self.series(st, node, t.extra[1], self.rows(t)[pos], '!values' if o.extra[1] == 'values' else 'row')
                return t.items[pos]
            return self.pick(st, node, t, pos)
        if kind == 'table':
            s = k.single()
            if s is not None:
                return self.column(st, node, o, s[0])
            vals = self.seq(st, k)
            if vals is not None and vals and all(isinstance(self.py(v), str) for v in vals):
                names = [self.py(v) for v in vals]
                rows = [[r[o.extra[1].index(c)] for c in names] for r in self.rows(o)]
                return self.table(st, node, names, o.extra[2], rows, k='tcs')
            return self.pick(st, node, o, self.positions(st, o, k, 'loc'))
        pos = self.positions(st, o, k, 'iloc' if o.extra[2] == '!values' else 'loc')
        return o.items[pos] if isinstance(pos, int) else self.pick(st, node, o, pos)

    def setitem(self, st, oid, o, k, v, node):
        """True when the store is modelled."""
        try:
            if o.extra[0] == 'acc' and o.extra[1] in ('loc', 'iloc'):
                tid = next(iter(o.items[0].objs))
                t = st.heap[tid]
                if t.extra[0] != 'table':
                    return False
                ko = self.I.one(st, k, 'tuple')
                row, col = (ko.items if ko is not None else (k, None))
                cols = list(t.extra[1])
                if col is not None:
                    so = st.heap.get(next(iter(col.objs))) if len(col.objs) == 1 else None
                    if so is None or so.kind != 'slice':
                        cs = self.seq(st, col)
                        cols = [self.py(c) for c in cs] if cs is not None else [self.py(col)]
                        if o.extra[1] == 'iloc':
                            cols = [t.extra[1][c] for c in cols]
                rows = [list(r) for r in self.rows(t)]
                index = list(t.extra[2])
                if o.extra[1] == 'loc' and row.single() is not None and row.single()[0] not in index:
                    pos = [len(rows)]
                    index.append(row.single()[0])
                    rows.append([NONE] * len(t.extra[1]))
                else:
                    pos = self.positions(st, t, row, o.extra[1])
                    pos = [pos] if isinstance(pos, int) else pos
                vals = self.seq(st, v)
                if vals is None:
                    vals = [v] * len(cols)
                if len(vals) != len(cols):
                    return False
                for p in pos:
                    for c, x in zip(cols, vals):
                        rows[p][t.extra[1].index(c)] = x
                self.I.mutate(st, tid, t, 'element store', node)
                t = st.heap[tid]
                st.heap[tid] = t.repl(items=tuple(x for r in rows for x in r), extra=('table', t.extra[1], tuple(index)))
                return True
            if o.extra[0] == 'table' and k.single() is not None:
                c = k.single()[0]
                vals = self.seq(st, v)
                n = len(o.extra[2])
                vals = vals if vals is not None else [v] * n
                if len(vals) != n:
                    return False
                cols = list(o.extra[1]) + ([] if c in o.extra[1] else [c])
                rows = [dict(zip(o.extra[1], r), **{c: x}) for r, x in zip(self.rows(o), vals)]
                self.I.mutate(st, oid, o, 'element store', node)
                o = st.heap[oid]
                st.heap[oid] = o.repl(items=tuple(r[x] for r in rows for x in cols), extra=('table', tuple(cols), o.extra[2]))
                return True
        except (KeyError, IndexError, TypeError, ValueError):
            pass
        return False

    def iterate(self, st, o, node):
        if o.extra[0] == 'table':
            return [const(c) for c in o.extra[1]]
        if o.extra[0] == 'acc' and o.extra[1] == 'groups':
            t = self.target(st, o)
            return [self.I.new(st, node, 'tuple', k=('gb', g), items=(
                self.I.new(st, node, 'tuple', k=('gbk', g), items=tuple(const(x) for x in g)) if isinstance(g, tuple) else
                self.I.new(st, node, 'tuple', k=('gbk', g), items=(const(g),)), self.pick(st, node, t, ps)))
                for g, ps in self.groups(st, o)]
        if o.extra[0] == 'acc':
            t = self.target(st, o)
            return [self.values(st, node, r) for r in self.rows(t)]
        return list(o.items)

    # ---------------------------------------------------------------- methods
    def method(self, st, oid, o, name, args, kw, node):
        try:
            return self.method1(st, oid, o, name, [a for a in args if isinstance(a, AV)], kw, node)
        except (KeyError, IndexError, TypeError, ValueError):
            return None

    def method1(self, st, oid, o, name, a, kw, node):
        kind = o.extra[0]
        if kind == 'acc' and o.extra[1] == 'groups':
            if name == 'get_group':
                k = self.I.models.pyvals(st, a[0])[0]
                return next(self.pick(st, node, self.target(st, o), ps) for g, ps in self.groups(st, o) if g == k or (g,) == k)
            return const(len(self.groups(st, o))) if name == '__len__' else None
        if kind == 'acc':
            if name == 'tolist':
                t = self.target(st, o)
                return self.I.mklist(st, node, [self.I.mklist(st, node, list(r)) for r in self.rows(t)])
            return None
        flag = lambda n, d=False: (kw[n].single() == (True,)) if n in kw else d
        if name == 'copy':
            if kind == 'table':
                return self.table(st, node, o.extra[1], o.extra[2], self.rows(o), k='cp')
            return self.series(st, node, o.extra[1], o.items, o.extra[2], k='cp')
        if name == '__len__':
            return self.npcall(st, node, 'size', [obj(oid)], {})
        if kind == 'table':
            if name == 'to_csv':
                p = self.py(a[0] if a else kw['path_or_buf'])
                if not ('index' in kw and kw['index'].single() == (False,)):
                    cols = ('Unnamed: 0',) + o.extra[1]
                    rows = [(const(i),) + tuple(r) for i, r in zip(o.extra[2], self.rows(o))]
                else:
                    cols, rows = o.extra[1], [tuple(r) for r in self.rows(o)]
                if kw.get('header') is not None or kw.get('mode') is not None:
                    self.disk.pop(p, None)
                    return NONE
                self.disk[p] = (cols, rows)
                self.log.append(('store', p))
                return NONE
            if name == 'drop':
                keys = a[0] if a else kw.get('index')
                if keys is None or 'columns' in kw or kw.get('axis', const(0)).single() not in ((0,), ('index',)):
                    return None
                ks = self.seq(st, keys)
                ks = [self.py(x) for x in ks] if ks is not None else [self.py(keys)]
                if any(x not in o.extra[2] for x in ks):
                    self.I.die(st, ('KeyError', 'LookupError', 'Exception', 'BaseException', 'object'), node)
                return self.place(st, oid, flag('inplace'), self.pick(st, node, o, [i for i, x in enumerate(o.extra[2]) if x not in ks]))
            if name == 'reset_index' and flag('drop'):
                return self.place(st, oid, flag('inplace'),
                                  self.table(st, node, o.extra[1], range(len(o.extra[2])), self.rows(o), k='ri'))
            if name in ('sort_values', 'nsmallest', 'nlargest'):
                by = kw.get('by', a[0] if name == 'sort_values' and a else a[1] if len(a) > 1 else kw.get('columns'))
                bs = self.seq(st, by)
                bs = [self.py(x) for x in bs] if bs is not None else [self.py(by)]
                rs = self.rows(o)
                order = sorted(range(len(rs)), key=lambda i: [self.py(rs[i][o.extra[1].index(b)]) for b in bs],
                               reverse=name == 'nlargest' or ('ascending' in kw and kw['ascending'].single() == (False,)))
                if 'key' in kw:
                    return None
                if name != 'sort_values':
                    order = order[:self.py(a[0] if a else kw['n'])]
                return self.place(st, oid, flag('inplace'), self.pick(st, node, o, order))
            if name in ('head', 'tail'):
                n = self.py(a[0]) if a else 5
                r = list(range(len(o.extra[2])))
                return self.pick(st, node, o, r[:n] if name == 'head' else r[len(r) - n:])
            if name in ('iterrows', 'itertuples'):
                out = []
                for i, r in zip(o.extra[2], self.rows(o)):
                    s = self.series(st, node, o.extra[1], r, k=('row', i))
                    out.append(self.I.new(st, node, 'tuple', k=('it', i), items=(const(i), s)) if name == 'iterrows' else s)
                return self.I.mklist(st, node, out)
            if name == 'to_dict' and a and a[0].single() in (('records',), ('list',)):
                L = self.I.models.lift
                if a[0].single() == ('records',):
                    return self.I.mklist(st, node, [self.I.new(st, node, 'dict', k=('rd', i), items={
                        ('str', c): (x, 'y') for c, x in zip(o.extra[1], r)}) for i, r in enumerate(self.rows(o))])
                return None
            if name == 'assign' and kw and not a:
                out = self.method1(st, oid, o, 'copy', [], {}, node)
                for c, v in kw.items():
                    if not self.setitem(st, next(iter(out.objs)), self.get(st, out), const(c), v, node):
                        return None
                return out
            if name == 'groupby' and set(kw) <= {'by', 'sort'}:
                by = a[0] if a else kw['by']
                cs = self.seq(st, by)
                cols = tuple(self.py(c) for c in cs) if cs is not None else (self.py(by),)
                if any(c not in o.extra[1] for c in cols):
                    self.I.die(st, ('KeyError', 'LookupError', 'Exception', 'BaseException', 'object'), node)
                for r in self.rows(o):
                    for c in cols:
                        self.py(r[o.extra[1].index(c)])
                return self.I.new(st, node, 'opaque', k='gb', items=(obj(oid),),
                                  extra=('acc', 'groups', (cols, len(cols) == 1, flag('sort', True))))
            if name == 'append' and a:
                return self.concat(None, st, node, [self.I.mklist(st, node, [obj(oid), a[0]])], kw)
            return None
        # series
        ps = lambda: [self.py(v) for v in o.items]
        if name in ('argmin', 'argmax'):
            return self.npcall(st, node, name, [obj(oid)], {})
        if name in ('idxmin', 'idxmax'):
            r = self.npcall(st, node, 'arg' + name[3:], [obj(oid)], {})
            return const(o.extra[1][self.py(r)])
        if name in ('abs', 'min', 'max', 'any', 'all', 'sum', 'argsort', 'unique'):
            return self.npcall(st, node, name, [obj(oid)], {})
        if name in ('tolist', 'to_list'):
            return self.I.mklist(st, node, list(o.items))
        if name in ('to_numpy',):
            return self.values(st, node, o.items)
        if name == 'item' and len(o.items) == 1:
            return o.items[0]
        if name in _OPN and a:
            return self.compare(st, obj(oid), _OPN[name](), a[0], node)
        if name in _ARN and a:
            return self.binop(st, obj(oid), _ARN[name](), a[0], node)
        if name == 'isin' and a:
            qs = [self.py(v) for v in self.seq(st, a[0])]
            return self.series(st, node, o.extra[1], [const(p in qs) for p in ps()])
        if name in ('between',):
            lo, hi = self.py(a[0]), self.py(a[1])
            return self.series(st, node, o.extra[1], [const(lo <= p <= hi) for p in ps()])
        if name == 'sort_values':
            p = ps()
            order = sorted(range(len(p)), key=lambda i: p[i], reverse='ascending' in kw and kw['ascending'].single() == (False,))
            return self.pick(st, node, o, order)
        if name in ('astype', 'round', 'squeeze', 'rename', 'fillna', 'dropna', 'str', 'ravel', 'flatten'):
            return obj(oid) if name not in ('round', 'str') else None
        if name == 'reset_index' and flag('drop'):
            return self.series(st, node, range(len(o.items)), o.items, o.extra[2])
        if name == 'notna' or name == 'notnull':
            return self.series(st, node, o.extra[1], [const(p is not None) for p in ps()])
        if name == 'get' and a:
            return self.getitem1(st, o, a[0], node)
        if name == 'to_dict':
            return self.I.new(st, node, 'dict', k='sd', items={('str', c): (x, 'y') for c, x in zip(o.extra[1], o.items)})
        return None

    def place(self, st, oid, inplace, v):
        if not inplace:
            return v
        n = self.get(st, v)
        self.I.mutate(st, oid, st.heap[oid], 'in place', None)
        st.heap[oid] = st.heap[oid].repl(items=n.items, extra=n.extra)
        return NONE
