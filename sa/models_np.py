"""Numpy model: which calls alias, copy, combine, reduce or mutate array storage."""
from .core import *

VIEWS = {'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'expand_dims', 'moveaxis', 'rollaxis', 'asarray',
         'atleast_1d', 'atleast_2d', 'atleast_3d', 'asanyarray', 'flip', 'fliplr', 'flipud', 'rot90', 'broadcast_to',
         'diagonal', 'real', 'ascontiguousarray', 'split', 'array_split', 'view', 'T', 'byteswap', 'newbyteorder',
         'filled_view', 'getdata', 'nan_to_num_view', 'require', 'asfarray'}
SAME_LIN_VIEW = VIEWS
COPIES = {'array', 'copy', 'astype', 'flatten', 'asmatrix', 'roll', 'tile', 'repeat', 'pad', 'sort', 'clip', 'nan_to_num',
          'rint', 'round', 'take', 'compress', 'delete', 'resize', 'filled', 'around', 'float64', 'uint16', 'int64',
          'float32', 'rotate', 'shift', 'byteswap_copy'}
#  element-by-element numpy functions
UFUNCS = {'abs', 'absolute', 'sqrt', 'square', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arcsin', 'arccos',
          'arctan', 'arctan2', 'sinh', 'cosh', 'tanh', 'power', 'mod', 'fmod', 'add', 'subtract', 'multiply', 'divide',
          'true_divide', 'floor_divide', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'floor', 'ceil', 'trunc',
          'sign', 'isnan', 'isfinite', 'isinf', 'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'invert',
          'greater', 'less', 'equal', 'not_equal', 'greater_equal', 'less_equal', 'deg2rad', 'rad2deg', 'radians',
          'degrees', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'negative', 'reciprocal', 'conj', 'isin', 'in1d',
          'left_shift', 'right_shift', 'imag', 'angle', 'iscomplex', 'isreal', 'isclose', 'remainder', 'float_power',
          'exp2', 'expm1', 'log1p', 'cbrt', 'sinc', 'heaviside', 'interp', 'polyval', 'digitize', 'searchsorted'}
REDUCE = {'sum', 'mean', 'median', 'std', 'var', 'min', 'max', 'amin', 'amax', 'nansum', 'nanmean', 'nanmedian', 'nanstd',
          'nanvar', 'nanmin', 'nanmax', 'argmin', 'argmax', 'nanargmin', 'nanargmax', 'any', 'all', 'prod', 'average',
          'ptp', 'percentile', 'nanpercentile', 'quantile', 'count_nonzero', 'trace', 'dot', 'vdot', 'inner', 'norm',
          'nanquantile', 'nanprod'}
NEW = {'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'logspace', 'eye', 'identity', 'geomspace', 'mgrid',
       'indices'}
LIKE = {'zeros_like', 'ones_like', 'empty_like', 'full_like'}
STACK = {'stack', 'concatenate', 'vstack', 'hstack', 'dstack', 'column_stack', 'append', 'insert', 'row_stack', 'block'}
INPLACE_FUNCS = {'copyto': 0, 'fill_diagonal': 0, 'put': 0, 'place': 0, 'putmask': 0, 'put_along_axis': 0}
NARROW = {'uint8', 'int8', 'bool', 'bool_'}


class Numpy:
    # ------------------------------------------------------------ entry points
    def np_call(self, st, name, args, kw, node, full):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        star = [a[1] for a in args if not isinstance(a, AV)]
        if name.startswith('random.'):
            return self.np_random(st, name[7:], args, kw, node)
        base = name.split('.')[-1]
        if name in ('bitwise_or.reduce', 'logical_or.reduce', 'bitwise_or.reduceat', 'bitwise_or.accumulate'):
            return self.or_reduce(st, pa, kw, node)
        if name.endswith('.at') and pa:
            self.arr_store(st, pa[0], pa[-1], node, 'ufunc.at')
            return NONE
        out = kw.get('out')
        if base in INPLACE_FUNCS and len(pa) > 1:
            self.arr_store(st, pa[0], pa[1], node, 'np.' + base)
            return NONE
        if name in ('random.shuffle',) and pa:
            self.arr_store(st, pa[0], ANY, node, 'shuffle')
            return NONE
        r = self.np_value(st, name, base, pa + star, {k: v for k, v in kw.items() if k != 'out'}, node)
        if out is None and base in UFUNCS and base not in ('interp', 'polyval', 'isin', 'in1d', 'isclose', 'angle',
                                                           'digitize', 'searchsorted', 'around', 'round'):
            nin = 2 if base in BINARY else 1
            if len(pa) > nin and any(self.is_arr(st, x) for x in pa[nin:]):
                out = pa[nin]
        if out is not None and (out.objs):
            w = kw.get('where')
            if self.is_arr(st, out):
                self.arr_store(st, out, r, node, 'out=', full=w is None)
                return out
        return r

    def np_value(self, st, name, base, pa, kw, node):
        I = self.I
        a0 = pa[0] if pa else (kw.get('a') or kw.get('x') or kw.get('arr') or kw.get('m') or kw.get('object'))
        if a0 is None and base not in NEW:
            t, c = I.dtags(st, list(pa) + list(kw.values()))
            return unknown(t, c)
        if base == 'where' and len(pa) >= 3:
            return self.np_where(st, pa, node)
        if base in ('where', 'nonzero', 'argwhere', 'flatnonzero', 'unravel_index', 'ix_', 'meshgrid', 'triu_indices',
                    'unique', 'histogram', 'histogram2d', 'polyfit', 'lstsq'):
            t, c = I.dtags(st, list(pa) + list(kw.values()))
            if base == 'unique' and not kw.get('return_index') and not kw.get('return_counts') \
                    and not kw.get('return_inverse'):
                t = t - UNORDERED
                items = self.unique_items(st, a0, node)
                if items is not None:
                    return items
                return I.mkarr(st, node, tags=t, ctl=c, shape=(ANY,), k='uq')
            n = {'where': None, 'nonzero': None, 'histogram': 2, 'meshgrid': len(pa), 'histogram2d': 3,
                 'unravel_index': None, 'lstsq': 4, 'unique': None}.get(base)
            if base in ('argwhere', 'flatnonzero'):
                return I.mkarr(st, node, tags=t, ctl=c, k='aw')
            if base == 'polyfit' and 'cov' not in kw and 'full' not in kw:
                return I.mkarr(st, node, tags=t, ctl=c, k='pf')
            if n is None and base in ('where', 'nonzero'):
                s = self.shape_of(st, a0)
                n = len(s) if s else None
            if base == 'unique':
                n = 1 + sum(1 for k in ('return_index', 'return_inverse', 'return_counts') if k in kw)
                t = t - UNORDERED
            if n is not None:
                its = tuple(I.mkarr(st, node, tags=t, ctl=c, k=('nz', i), shape=(ANY,) if base in (
                    'where', 'nonzero') else None) for i in range(n))
                return I.new(st, node, 'tuple', k='nzt', items=its)
            return I.new(st, node, 'tuple', k='nzt', elem=I.mkarr(st, node, tags=t, ctl=c, k='nz'))
        if base in LIKE:
            fill = pa[1] if base == 'full_like' and len(pa) > 1 else kw.get('fill_value')
            return self.new_array(st, node, self.shape_of(st, a0), fill if base == 'full_like' else
                                  const({'zeros_like': 0, 'ones_like': 1}.get(base, 0)), base,
                                  dtype=self.dtype_of(st, kw.get('dtype')))
        if base in NEW:
            if base in ('zeros', 'ones', 'empty', 'full'):
                sv = pa[0] if pa else kw.get('shape', ANY)
                fill = (pa[1] if len(pa) > 1 else kw.get('fill_value', ANY)) if base == 'full' else \
                    const({'zeros': 0, 'ones': 1, 'empty': 0}[base])
                dt = kw.get('dtype') or (pa[1] if base != 'full' and len(pa) > 1 else None)
                return self.new_array(st, node, self.shape_value(st, sv), fill, base, dtype=self.dtype_of(st, dt))
            t, c = I.dtags(st, list(pa) + list(kw.values()))
            sh = (ANY,)
            if base == 'arange':
                if len(pa) == 1:
                    sh = (pa[0] if pa[0].single() is not None or _issym(pa[0]) else ANY,)
                pv = self.fold(st, lambda *a: list(range(*a)), pa) if not kw else None
                if pv is not None and len(pv) == 1 and len(pv[0]) <= 64:
                    return I.mkarr(st, node, items=tuple(const(x) for x in pv[0]), k='ar')
            elif base == 'linspace':
                n = pa[2] if len(pa) > 2 else kw.get('num')
                sh = (n if n is not None and n.single() is not None else ANY,)
            elif base in ('indices', 'eye', 'identity'):
                sh = None
                if base == 'indices' and pa:
                    s = self.shape_value(st, pa[0])
                    if s is not None:
                        sh = (const(len(s)),) + s
            return I.mkarr(st, node, tags=t, ctl=c, shape=sh, k=base)
        if base == 'shape':
            return self.shape_tuple(st, a0, node)
        if base in ('ndim', 'size'):
            s = self.shape_of(st, a0)
            if s is not None and base == 'ndim':
                return const(len(s))
            return unknown()
        if base in ('array', 'asarray', 'asanyarray', 'copy', 'ascontiguousarray', 'atleast_1d', 'squeeze_',
                    'masked_array', 'asfarray', 'array_'):
            return self.np_array(st, base, a0, kw, node, pa)
        if base == 'astype' and len(pa) > 1:
            return self.np_astype(st, a0, pa[1], kw, node)
        if base in STACK:
            return self.np_stack(st, base, pa, kw, node)
        if base in VIEWS:
            return self.np_view(st, base, a0, pa[1:], kw, node)
        if base in REDUCE:
            return self.np_reduce(st, base, a0, pa, kw, node)
        if base in UFUNCS:
            if base == 'bitwise_or' and len(pa) > 1:
                r = self.fold(st, lambda a, b: a | b, pa[:2])
                if r is not None:
                    return self.lift_all(st, node, r, E0, E0)
                return self.elementwise(st, node, pa[:2], 'or')
            ops = list(pa) + [v for k, v in kw.items() if k in ('x1', 'x2', 'x', 'a', 'b')]
            if 'where' in kw:
                ops.append(kw['where'])
            if base == 'interp':
                xs = [self.vn_of(st, x) for x in ops[1:] + [v for _, v in sorted(kw.items())]]
                nm = 'interp:%s' % ','.join(map(str, xs)) if all(x is not None for x in xs) else None
                return self.elementwise(st, node, ops[:1], nm, extra_tags=I.dtags(st, ops[1:])[0])
            vname = {'add': 'add', 'multiply': 'mul', 'subtract': 'sub', 'divide': 'div', 'true_divide': 'div',
                     'power': 'pow', 'bitwise_and': 'and', 'absolute': 'abs'}.get(base, base)
            if base == 'bitwise_and':
                return self.elementwise(st, node, ops, 'and')
            return self.elementwise(st, node, ops, vname)
        if base in COPIES:
            if base in ('round', 'around', 'rint'):
                return self.elementwise(st, node, [a0], 'round')
            if base in ('roll', 'pad', 'tile', 'repeat', 'take', 'delete', 'clip', 'sort', 'rotate', 'shift', 'compress',
                        'resize'):
                rest = list(pa[1:]) + list(kw.values())
                o = I.one(st, a0)
                if base in ('roll', 'clip') and o is not None:
                    if base == 'clip':
                        return self.elementwise(st, node, [a0] + rest, None, lin=False)
                    r = self.elementwise(st, node, [a0], None, lin=True, extra_tags=I.dtags(st, rest)[0])
                    return r
                t, c = I.dtags(st, [a0] + rest)
                if base == 'sort':
                    t = t - UNORDERED
                return I.mkarr(st, node, tags=t, ctl=c, lin=self.lin_of(st, a0) if base in ('pad', 'tile', 'repeat',
                                                                                          'take') else E0, k=base)
            r = self.copy_arr(st, node, a0, k=base)
            if base not in ('array', 'copy', 'float64', 'float32', 'asmatrix'):
                self.renumber(st, r, 'np.' + base, [self.vn_of(st, x) for x in list(pa[1:]) + list(kw.values())])
            return r
        t, c = I.dtags(st, list(pa) + list(kw.values()))
        if base in ('isscalar', 'iscomplexobj', 'isrealobj', 'issubdtype', 'finfo', 'iinfo', 'dtype', 'result_type',
                    'array_equal', 'allclose', 'can_cast', 'isfortran'):
            return AV(any=True, tags=t, ctl=c)
        self.np_callbacks(st, pa, kw, node)
        if base in ('savetxt', 'save', 'savez', 'tofile', 'savez_compressed'):
            I.effect('fs-write', node, a0, st)
            return NONE
        if base in ('genfromtxt', 'loadtxt', 'load', 'fromfile'):
            I.effect('fs-read', node, a0, st)
            return I.mkarr(st, node, tags=t, ctl=c, k='ld')
        if base in ('seterr', 'set_printoptions', 'errstate'):
            return ANY
        v = None
        vns = [self.vn_of(st, a) for a in pa]
        if not kw and all(x is not None for x in vns):
            v = self.vn('np.' + name, *vns)
        return I.mkarr(st, node, tags=t, ctl=c, k='np', vn=v)

    def np_callbacks(self, st, pa, kw, node):
        for a in list(pa) + list(kw.values()):
            if any(o.kind in ('func', 'bound') for _, o in self.I.objs(st, a)):
                self.callback(st, a, [ANY], node)

    def unique_items(self, st, a0, node):
        o = self.I.one(st, a0)
        if o is None or o.kind not in ('array', 'list', 'tuple') or o.items is None or o.elem is not None:
            return None
        vals = []
        for i in o.items:
            s = i.single()
            if s is None:
                return None
            vals.append(s[0])
        try:
            vals = sorted(set(vals))
        except TypeError:
            return None
        t, c = self.I.dtags(st, [a0])
        return self.I.mkarr(st, node, items=tuple(const(v, t - UNORDERED) for v in vals), k='uq')

    def np_random(self, st, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        t, c = I.dtags(st, list(pa) + list(kw.values()))
        if name == 'default_rng':
            seeded = bool(pa or kw) and not any(C(None) in a.consts for a in pa)
            if not seeded:
                I.effect('rng:default_rng()', node, None, st)
                t = t | RNG
            return I.new(st, node, 'opaque', k='rng', tags=t, extra='rng' if seeded else 'rng-unseeded')
        if name == 'seed':
            I.effect('rng-seed', node, None, st)
            return NONE
        if name in ('RandomState', 'Generator', 'PCG64', 'SeedSequence'):
            if not pa:
                I.effect('rng:' + name + '()', node, None, st)
            return I.new(st, node, 'opaque', k='rng', tags=t, extra='rng')
        I.effect('rng:' + name, node, None, st)
        if name == 'shuffle' and pa:
            self.arr_store(st, pa[0], ANY, node, 'shuffle')
            return NONE
        return I.mkarr(st, node, tags=t | RNG, ctl=c, k='rnd')

    # ------------------------------------------------------------ pieces
    def new_array(self, st, node, shape, fill, k, dtype=None):
        I = self.I
        t, c = I.dtags(st, [fill])
        vn = self.vn('fill', self.vn_of(st, fill)) if self.vn_of(st, fill) is not None else None
        if shape is not None and len(shape) > 1:
            n = shape[0].single()
            if n is not None and isinstance(n[0], int) and not isinstance(n[0], bool) and 0 < n[0] <= 3 and \
                    all(d.single() is None or d.single()[0] > 16 or d.single()[0] == 1 < n[0] for d in shape[1:]):
                # leading axis of known small extent: track the planes separately
                items = tuple(self.new_array(st, node, shape[1:], fill, (k, i), dtype) for i in range(n[0]))
                return I.mkarr(st, node, items=items, k=('newst', k))
        if shape is not None and len(shape) == 1 and fill.consts and not fill.objs and not fill.any:
            n = shape[0].single()
            if n is not None and isinstance(n[0], int) and not isinstance(n[0], bool) and 0 < n[0] <= 3:
                return I.mkarr(st, node, items=(fill,) * n[0], k=('new1', k), dtype=dtype)
        return I.mkarr(st, node, tags=t, ctl=c, shape=shape, k=('new', k), lin=E0, vn=vn, dtype=dtype)

    def dtype_of(self, st, dv):
        if dv is None:
            return None
        s = dv.single()
        if s is not None:
            return s[0] if isinstance(s[0], str) else None
        o = self.I.one(st, dv)
        if o is not None and o.kind == 'ext':
            return o.extra.split('.')[-1]
        return '?'

    def shape_value(self, st, sv):
        """Shape given as an int or a tuple."""
        if sv.single() is not None or _issym(sv):
            return (sv,)
        o = self.I.one(st, sv)
        if o is not None and o.kind in ('tuple', 'list', 'array') and o.items is not None and o.elem is None:
            return tuple(i if i.single() is not None or _issym(i) else ANY for i in o.items)
        return None

    def shape_tuple(self, st, av, node):
        I = self.I
        s = self.shape_of(st, av)
        if s is None:
            t, c = I.dtags(st, [])
            return I.new(st, node, 'tuple', k='shp', elem=ANY)
        return I.new(st, node, 'tuple', k=('shp', len(s)), items=tuple(d.repl(tags=E0, ctl=E0) if not d.any else anyint() for d in s))

    def np_array(self, st, base, a0, kw, node, pa):
        I = self.I
        cp = kw.get('copy')
        nocopy = base in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d') or \
            base == 'masked_array' or (cp is not None and cp.single() is not None and cp.single()[0] in (False, None))
        dt = self.dtype_of(st, kw.get('dtype') or (pa[1] if base in ('array', 'asarray') and len(pa) > 1 else None))
        res = NOTHING
        for oid, o in I.objs(st, a0):
            if o.kind == 'array':
                if nocopy:
                    res = jav(res, obj(oid))
                else:
                    res = jav(res, self.copy_arr(st, node, obj(oid), k=('ar', oid), keep_lin=dt not in NARROW, dtype=dt))
            elif o.kind in ('list', 'tuple'):
                res = jav(res, self.list_to_arr(st, obj(oid), o, node))
            else:
                t, c = I.deep(st, obj(oid))
                if o.kind in ('inst', 'dict', 'header', 'hdu', 'class'):
                    res = jav(res, I.mkarr(st, node, shape=(), tags=t, ctl=c, k=('sc', oid)))
                else:
                    res = jav(res, I.mkarr(st, node, tags=t, ctl=c, k=('sc', oid)))
        if a0.consts:
            s = a0.single()
            if s == (None,):
                res = jav(res, I.mkarr(st, node, shape=(), k='none'))
            else:
                vn = self.vn_of(st, a0.repl(objs=E0, any=False))
                res = jav(res, I.mkarr(st, node, shape=(), tags=a0.tags, ctl=a0.ctl, k='con', vn=vn))
        if a0.any:
            res = jav(res, I.mkarr(st, node, tags=a0.tags, ctl=a0.ctl, k='any'))
        return res if not res.empty else ANY

    def list_to_arr(self, st, av, o, node):
        I = self.I
        if o.items is not None:
            items = []
            for i, x in enumerate(o.items):
                xo = I.one(st, x)
                if xo is not None and xo.kind in ('list', 'tuple'):
                    items.append(self.list_to_arr(st, x, xo, node))
                elif self.is_arr(st, x):
                    items.append(self.copy_arr(st, node, x, k=('l', av.objs, i)))
                else:
                    items.append(x)
            r = I.mkarr(st, node, items=tuple(items), k=('la', av.objs), shape=None if items else (const(0),))
            if I.tables is not None and items:
                (q,) = r.objs
                its = I.tables.uniform(st, st.heap[q])
                if its is not None:
                    st.heap[q] = st.heap[q].repl(items=its)
            return r
        return self.copy_arr(st, node, av, k=('la', av.objs))

    def np_astype(self, st, a0, dt, kw, node):
        d = self.dtype_of(st, dt)
        same = all(o.dtype == d for _, o in self.I.objs(st, a0))
        r = self.copy_arr(st, node, a0, k='as', keep_lin=same or d not in NARROW, dtype=d)
        if not same and d is not None and not str(d).startswith(('float', 'f', '<f', '>f', 'double')):
            self.renumber(st, r, 'as' + str(d), [])
        return r

    def renumber(self, st, v, what, extra):
        """Give the arrays of a value a value number of their own: a function of what they held."""
        for oid, o in self.I.objs(st, v):
            if o.kind != 'array':
                continue
            if o.items is not None:
                for x in o.items:
                    self.renumber(st, x, what, extra)
            elif o.vn is not None:
                st.heap[oid] = o.repl(vn=self.vn(what, o.vn, *extra) if all(e is not None for e in extra) else None)

    def np_where(self, st, pa, node):
        return self.elementwise(st, node, pa[:3], 'where', where=True)

    def rowwise(self, st, node, parts):
        """Arrays joined along their second axis: row i of the result is made of row i of each."""
        its = []
        for x in parts:
            si = self.stack_items(st, x) if self.is_arr(st, x) else None
            if si is None or its and len(si) != len(its[0]):
                return None
            its.append(si)
        if not its:
            return None
        rows = []
        for i, r in enumerate(zip(*its)):
            t, c = self.I.dtags(st, list(r))
            rows.append(self.I.mkarr(st, node, items=tuple(r), shape=(const(len(r)),), k=('row', i)) if not any(x.objs for x in r) else
                        self.I.mkarr(st, node, tags=t, ctl=c, k=('row', i)))
        return self.I.mkarr(st, node, items=tuple(rows), k='rows')

    def np_stack(self, st, base, pa, kw, node):
        I = self.I
        a0 = pa[0]
        ax = kw.get('axis') or (pa[1] if len(pa) > 1 and base not in ('append', 'insert') else None)
        axis = ax.single() if ax is not None else None
        if base == 'append':
            ax = kw.get('axis') or (pa[2] if len(pa) > 2 else None)
            vals = pa[1] if len(pa) > 1 else kw.get('values', ANY)
            if ax is not None and ax.single() == (1,):
                r = self.rowwise(st, node, [a0, vals])
                if r is not None:
                    return r
            t, c = I.dtags(st, [a0, vals])
            o = I.one(st, a0)
            vo = I.one(st, vals)
            if o is not None and o.kind in ('array', 'list', 'tuple') and o.items is not None and o.elem is None and \
                    (ax is None or ax.single() == (0,)):
                rank = self.rank(st, a0)
                if not (ax is None and any(self.is_arr(st, i) and self.rank(st, i) != 0 for i in o.items)):
                    if vo is not None and vo.kind in ('array', 'list', 'tuple') and vo.items is not None:
                        vi = tuple(vo.items)
                    elif vo is None and not vals.objs or (ax is None and self.rank(st, vals) == 0):
                        vi = (vals,)
                    else:
                        vi = None
                    if vi is not None:
                        cp = tuple(self.copy_arr(st, node, x, k=('ap', i)) if self.is_arr(st, x) and len(x.objs) == 1
                                   else x for i, x in enumerate(tuple(o.items) + vi))
                        return I.mkarr(st, node, items=cp, k='append')
            ob = frozenset(x for x in (jelem(o).objs if o is not None else E0) | (vals.objs) if
                           st.heap.get(x) is not None and st.heap[x].kind == 'inst')
            lin = self.lin_of(st, a0) & self.lin_of(st, vals) if self.is_arr(st, vals) else E0
            return I.mkarr(st, node, tags=t, ctl=c, k='append', lin=lin, shape=None,
                           elem=AV(objs=ob) if ob else None)
        if base == 'insert':
            t, c = I.dtags(st, pa)
            return I.mkarr(st, node, tags=t, ctl=c, k='insert')
        o = I.one(st, a0)
        if o is not None and o.items is not None and o.kind in ('list', 'tuple', 'array'):
            parts = list(o.items)
            if axis == (1,) and base in ('stack', 'concatenate') or base == 'column_stack':
                r = self.rowwise(st, node, parts)
                if r is not None:
                    return r
            if base == 'stack' and (axis is None and ax is None or axis == (0,)):
                return I.mkarr(st, node, items=tuple(
                    self.copy_arr(st, node, x, k=('st', i)) for i, x in enumerate(parts)), k='stack')
            if base in ('concatenate', 'vstack') and (ax is None or axis == (0,)):
                its = []
                for i, x in enumerate(parts):
                    si = self.stack_items(st, x)
                    if si is None:
                        its = None
                        break
                    its += [self.copy_arr(st, node, y, k=('cc', i, j)) if self.is_arr(st, y) and len(y.objs) == 1 else y
                            for j, y in enumerate(si)]
                if its is not None:
                    return I.mkarr(st, node, items=tuple(its), k='concat')
            t, c = I.dtags(st, parts)
            lin = None
            for x in parts:
                l = self.lin_of(st, x)
                lin = l if lin is None else lin & l
            return I.mkarr(st, node, tags=t, ctl=c, lin=lin or E0, k=base)
        t, c = I.dtags(st, [a0])
        el = jelem(o) if o is not None else NOTHING
        lin = self.lin_of(st, el) if el.objs and not el.any and not el.consts else E0
        return I.mkarr(st, node, tags=t, ctl=c, lin=lin, k=base)

    def np_view(self, st, base, a0, rest, kw, node):
        """Calls that return (or may return) the same storage."""
        I = self.I
        res = NOTHING
        if a0.consts or (a0.any and not a0.objs):
            res = unknown(a0.tags, a0.ctl)
        for oid, o in I.objs(st, a0):
            if o.kind in ('list', 'tuple'):
                a = self.list_to_arr(st, obj(oid), o, node)
                res = jav(res, a)
                continue
            if o.kind != 'array':
                t, c = I.deep(st, obj(oid))
                res = jav(res, unknown(t, c))
                continue
            sh = self.shape_of(st, obj(oid))
            nsh = None
            if base in ('reshape',):
                sv = rest[0] if len(rest) == 1 else None
                if len(rest) > 1:
                    nsh = tuple(r if (r.single() is not None and r.single() != (-1,)) or _issym(r) else ANY for r in rest)
                elif sv is not None:
                    nsh = self.shape_value(st, sv)
                    if nsh is not None:
                        nsh = tuple(ANY if d.single() == (-1,) else d for d in nsh)
                if o.items is not None and nsh is not None and sh is not None:
                    # adding or removing a leading axis of length one keeps the planes apart
                    if len(nsh) == len(sh) + 1 and nsh[0].single() == (1,):
                        res = jav(res, I.mkarr(st, node, items=(obj(oid),), k=('rs', oid)))
                        continue
                    if nsh == sh:
                        res = jav(res, obj(oid))
                        continue
            elif base in ('ravel',):
                nsh = (ANY,)
                if sh is not None and len(sh) == 1:
                    res = jav(res, obj(oid))
                    continue
            elif base in ('transpose', 'T') and not rest and I.tables is not None and I.tables.turned(st, o, node) is not None:
                res = jav(res, I.tables.turned(st, o, node))
                continue
            elif base in ('transpose', 'T', 'swapaxes', 'moveaxis', 'rollaxis') and sh is not None:
                nsh = tuple(reversed(sh)) if not rest and base in ('transpose', 'T') else (ANY,) * len(sh)
            elif base in ('flip', 'fliplr', 'flipud', 'rot90'):
                nsh = sh
            elif base == 'expand_dims' and sh is not None:
                ax = (rest[0] if rest else kw.get('axis', ANY)).single()
                if ax == (0,):
                    res = jav(res, I.mkarr(st, node, items=(obj(oid),), k=('xd', oid)))
                    continue
                nsh = (ANY,) * (len(sh) + 1)
            elif base in ('asarray', 'view', 'getdata', 'real', 'require', 'ascontiguousarray', 'broadcast_to'):
                if base != 'broadcast_to':
                    res = jav(res, obj(oid))
                    continue
            elif base == 'squeeze' and o.items is not None and len(o.items) == 1:
                res = jav(res, o.items[0])
                continue
            if base in ('split', 'array_split'):
                v = self.view(st, node, oid, None, base)
                res = jav(res, I.new(st, node, 'list', k=('spl', oid), elem=v))
                continue
            txt = [repr(x.single()[0]) if x.single() is not None else None for x in list(rest) + list(kw.values())]
            for i, x in enumerate(list(rest) + list(kw.values())):
                if txt[i] is None:
                    pv = self.pyvals(st, x)
                    txt[i] = repr(pv[0]) if pv is not None and len(pv) == 1 else 't%s' % self.vn_of(st, x)
            res = jav(res, self.view(st, node, oid, nsh, base + '(' + ','.join(txt) + ')' if txt else base))
        return res

    def or_reduce(self, st, pa, kw, node):
        """bitwise_or over an axis keeps every plane's flags when the axis is the stacking axis."""
        I = self.I
        a0 = pa[0]
        ax = kw.get('axis') or (pa[1] if len(pa) > 1 else const(0))
        si = self.stack_items(st, a0)
        if si is not None and ax.single() == (0,) and si:
            r = si[0]
            if len(si) == 1:
                return self.copy_arr(st, node, r, k='orr')
            for i, x in enumerate(si[1:]):
                r = self.elementwise(st, node, [r, x], 'or', k=('orr', i))
            return r
        t, c = I.dtags(st, pa)
        return I.mkarr(st, node, tags=t, ctl=c, lin=self.lin_of(st, a0), k='orr')

    def np_reduce(self, st, base, a0, pa, kw, node):
        I = self.I
        ax = kw.get('axis')
        if ax is None and len(pa) > 1 and base not in ('percentile', 'nanpercentile', 'quantile', 'dot', 'vdot', 'inner',
                                                      'nanquantile'):
            ax = pa[1]
        extra = [v for k, v in sorted(kw.items()) if k not in ('axis', 'keepdims', 'dtype')] + \
            [x for x in pa[1:] if x is not ax]
        names = [k for k in sorted(kw) if k not in ('axis', 'keepdims', 'dtype')]
        a = ax.single() if ax is not None else None
        si = self.stack_items(st, a0)
        sh = self.shape_of(st, a0)
        if si is not None and a is not None and a[0] is not None and sh is not None:
            try:
                n = len(sh)
                axes = a[0] if isinstance(a[0], tuple) else (a[0],)
                axes = tuple(x % n for x in axes)
            except Exception:
                axes = (0,)
            if 0 not in axes:
                # reduces inside each plane: planes stay separate
                items = tuple(self.np_reduce(st, base, x, [x], {'axis': self.lift(st, node, tuple(
                    q - 1 for q in axes), k=('ax', i))}, node) for i, x in enumerate(si))
                return I.mkarr(st, node, items=items, k=('red', tuple(a0.objs)))
        elif si is not None and sh is None and a is not None and isinstance(a[0], int) and \
                (a[0] > 0 or a[0] == -1 and si and all(self.is_arr(st, x) for x in si)):
            items = tuple(self.np_reduce(st, base, x, [x], {'axis': const(a[0] - 1 if a[0] > 0 else -1)}, node) for x in si)
            return I.mkarr(st, node, items=items, k=('red', tuple(a0.objs)))
        if si is not None and ax is not None and a is None:
            axo = I.one(st, ax, 'tuple')
            pv = self.pyvals(st, ax)
            if pv is not None and len(pv) == 1 and sh is not None and isinstance(pv[0], tuple):
                axes = tuple(x % len(sh) for x in pv[0])
                if 0 not in axes:
                    items = tuple(self.np_reduce(st, base, x, [x], {'axis': self.lift(st, node, tuple(
                        q - 1 for q in axes), k=('ax', i))}, node) for i, x in enumerate(si))
                    return I.mkarr(st, node, items=items, k=('red', tuple(a0.objs)))
        t, c = I.dtags(st, [a0] + extra)
        t = t - UNORDERED if base in ('sum', 'mean', 'median', 'min', 'max', 'any', 'all', 'nansum', 'nanmean') else t
        vns = [self.vn_of(st, x) for x in [a0] + extra]
        v = self.vn('red.' + base, _Kk(repr(a) + ''.join(';' + n for n in names)), *vns) if all(x is not None for x in vns) else None
        if v is None and si and a == (0,) and not extra and not kw.get('keepdims'):
            vns = [self.vn_of(st, x) for x in si]
            v = self.vn('redi.' + base, *vns) if all(x is not None for x in vns) else None
        nsh = None
        keep = kw.get('keepdims')
        if keep is None:
            if ax is None or a == (None,):
                nsh = ()
            elif sh is not None and a is not None and isinstance(a[0], int) and -len(sh) <= a[0] < len(sh):
                l = list(sh)
                del l[a[0]]
                nsh = tuple(l)
            elif sh is not None:
                pv = self.pyvals(st, ax)
                if pv is not None and len(pv) == 1 and isinstance(pv[0], tuple):
                    drop = set(x % len(sh) for x in pv[0]) if sh else set()
                    nsh = tuple(d for i, d in enumerate(sh) if i not in drop)
        if nsh == ():
            return AV(any=True, tags=t, ctl=c, vn=v)
        return I.mkarr(st, node, tags=t, ctl=c, shape=nsh, k=('red', base, tuple(sorted(a0.objs))), vn=v)

    # ------------------------------------------------------------ array methods
    def arr_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        me = obj(oid)
        if name in ('fill', 'put', 'itemset', 'partition'):
            self.arr_store(st, me, pa[0] if pa else ANY, node, '.' + name, full=name == 'fill')
            return NONE
        if name == 'sort':
            self.arr_store(st, me, ANY, node, '.sort')
            return NONE
        if name in ('setflags', 'resize'):
            I.mutate(st, oid, o, '.' + name, node)
            return NONE
        if name == 'copy' or name == 'flatten':
            if name == 'flatten' and o.items is not None:
                t, c = I.deep(st, me)
                if any(self.is_arr(st, i) for i in o.items):
                    return I.mkarr(st, node, tags=t, ctl=c, lin=self.lin_of(st, me), shape=(ANY,), k='fl')
            r = self.copy_arr(st, node, me, k=name)
            if name == 'flatten':
                x = next(iter(r.objs))
                st.heap[x] = st.heap[x].repl(shape=(ANY,)) if st.heap[x].items is None else st.heap[x]
            return r
        if name == 'astype':
            cp = kw.get('copy')
            if cp is not None and cp.single() == (False,):
                return jav(me, self.np_astype(st, me, pa[0] if pa else ANY, kw, node))
            return self.np_astype(st, me, pa[0] if pa else kw.get('dtype', ANY), kw, node)
        if name == 'tolist':
            if o.items is not None:
                return I.new(st, node, 'list', k='tl', items=o.items)
            t, c = I.deep(st, me)
            return I.new(st, node, 'list', k='tl', elem=unknown(t, c))
        if name == '__iter__':
            return me
        if name in ('tobytes', 'item', 'tostring', '__len__', '__hash__'):
            t, c = I.deep(st, me)
            return unknown(t, c)
        if name in ('tofile', 'dump'):
            I.effect('fs-write', node, pa[0] if pa else None, st)
            return NONE
        if name in VIEWS:
            return self.np_view(st, name, me, pa, kw, node)
        if name == 'filled':
            return self.copy_arr(st, node, me, k='filled')
        if name in ('nonzero', 'argsort', 'cumsum', 'cumprod', 'searchsorted', 'dot', 'choose', 'conj', 'index'):
            return self.np_value(st, name, name, [me] + pa, kw, node)
        if name in REDUCE or name in UFUNCS or name in COPIES:
            out = kw.get('out')
            r = self.np_value(st, name, name, [me] + pa, {k: v for k, v in kw.items() if k != 'out'}, node)
            if out is not None and self.is_arr(st, out):
                self.arr_store(st, out, r, node, 'out=', full=True)
                return out
            return r
        if name.startswith('__i') and name.endswith('__') and pa:
            self.arr_store(st, me, pa[0], node, name)
            return me
        if name == '__setitem__' and len(pa) == 2:
            self.set_item(st, me, pa[0], pa[1], node)
            return NONE
        if name == '__getitem__' and pa:
            return self.get_item(st, me, pa[0], node)
        t, c = I.dtags(st, [me] + pa + list(kw.values()))
        return I.mkarr(st, node, tags=t, ctl=c, k=('m', name))


class _Kk(str):
    def __lt__(self, o):
        return str(self) < str(o)


BINARY = {'arctan2', 'power', 'mod', 'fmod', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide',
          'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'logical_and', 'logical_or', 'logical_xor', 'greater', 'less',
          'equal', 'not_equal', 'greater_equal', 'less_equal', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift',
          'right_shift', 'remainder', 'float_power', 'heaviside'}
UNORDERED = frozenset(('!set-order', '!fs-order'))
RNG = frozenset(('!rng',))


def _issym(a):
    return len(a.consts) == 1 and not a.objs and not a.any and next(iter(a.consts))[0] == 'Sym' and \
        next(iter(a.consts))[1][:1] != '?'
