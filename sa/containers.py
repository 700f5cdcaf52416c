"""Arrays, sequences, dictionaries and headers of the abstract heap."""
import ast
from .core import *
from .values import _Key


NFRAMES = 2


WEAK_HIST = frozenset((("~weak", E0),))


class Containers:
    # ------------------------------------------------------------ arrays
    def base_of(self, st, oid):
        """Follow array views to the object that owns the storage."""
        n = 0
        while n < 20:
            o = st.heap.get(oid)
            if o is None or o.kind != 'array' or not (isinstance(o.extra, tuple) and o.extra and o.extra[0] == 'view'):
                return oid
            oid = o.extra[1]
            n += 1
        return oid

    def view(self, st, node, oid, shape=None, what='', k=0):
        """A view sharing storage with array `oid`."""
        b = self.base_of(st, oid)
        o = st.heap[oid]
        if isinstance(o.extra, tuple) and o.extra and o.extra[0] == 'view':
            # index of an index; a chain that grows in a loop is cut
            pre = o.extra[2]
            what = pre + '|' + what if pre.count('|') < 4 and '~' not in pre else '~'
        v = Obj('array', extra=('view', b, what), shape=shape, dtype=o.dtype, items=None, origin=None, lin=None)
        return obj(self.I.alloc(st, node, v, ('view', b, what, k)))

    def arr(self, st, oid):
        """The storage-owning object behind an array id."""
        return st.heap[self.base_of(st, oid)]

    def lin_of(self, st, av):
        """Flag lineage of a value: the set of bit-planes it is known to contain (None = unknown scalar)."""
        res = None
        if av.any or not av.objs:
            return E0 if not av.consts else E0
        for oid in av.objs:
            o = st.heap.get(oid)
            if o is None or o.kind != 'array':
                l = E0
            else:
                o = self.arr(st, oid)
                if o.items is not None:
                    l = None
                    for i in o.items:
                        x = self.lin_of(st, i)
                        l = x if l is None else l & x
                    l = l or E0
                else:
                    l = o.lin or E0
            res = l if res is None else (res & l)
        return res or E0

    def shape_of(self, st, av):
        """Tuple of dimension AVs, or None."""
        if av.any or not av.objs:
            if av.consts and not av.any:
                return ()
            return None
        res = None
        for oid in av.objs:
            o = st.heap.get(oid)
            s = None
            if o is not None and o.kind == 'array':
                if o.items is not None:
                    es = None
                    for i in o.items:
                        x = self.shape_of(st, i)
                        if x is None:
                            es = None
                            break
                        es = x if es is None else (es if es == x else (tuple(
                            p if p == q else ANY for p, q in zip(es, x)) if len(es) == len(x) else None))
                        if es is None:
                            break
                    if o.items and es is not None:
                        s = (const(len(o.items)),) + es
                    elif o.items is not None and o.shape is not None:
                        s = o.shape
                else:
                    s = o.shape
            elif o is not None and o.kind in ('list', 'tuple'):
                if o.items is not None:
                    es = self.shape_of(st, o.items[0]) if o.items else ()
                    s = (const(len(o.items)),) + es if es is not None else None
            if s is None:
                return None
            if res is None:
                res = s
            elif res != s:
                if len(res) != len(s):
                    return None
                res = tuple(p if p == q else ANY for p, q in zip(res, s))
        return res

    def stack_items(self, st, av):
        """Elements along the first axis when they are tracked individually, else None."""
        o = self.I.one(st, av)
        if o is None:
            return None
        if o.kind == 'array' and o.items is not None:
            return o.items
        if o.kind in ('list', 'tuple') and o.items is not None:
            return o.items
        return None

    def elementwise(self, st, node, avs, vnk='op', k=0, lin=None, where=False, extra_tags=E0):
        """Element-by-element function of the operands."""
        I = self.I
        stacks = []
        for a in avs:
            o = I.one(st, a)
            if o is not None and o.kind == 'array' and o.items is not None:
                stacks.append(len(o.items))
            elif o is not None and o.kind in ('list', 'tuple') and o.items is not None and \
                    any(self.is_arr(st, i) for i in o.items):
                stacks.append(len(o.items))
        if stacks and len(set(stacks)) == 1:
            n = stacks[0]
            # a stack combines element by element unless another operand has an incompatible rank
            ranks = [self.rank(st, a) for a in avs]
            top = max([r for r in ranks if r is not None] or [0])
            srank = [r for a, r in zip(avs, ranks) if self.stack_items(st, a) is not None and r is not None]
            if not (srank and max(srank) < top):
                items = []
                for i in range(n):
                    sub = []
                    for a, r in zip(avs, ranks):
                        si = self.stack_items(st, a)
                        if si is not None and (r is None or r == top or not srank or r == max(srank)):
                            sub.append(si[i] if i < len(si) else ANY)
                        elif si is None and r is not None and r > 1 and srank and r == max(srank) and self.is_arr(st, a):
                            t, c = I.dtags(st, [a])
                            sub.append(I.mkarr(st, node, tags=t, ctl=c, shape=self.shape_of(st, a)[1:], lin=self.lin_of(st, a),
                                               k=('row', k, i, tuple(sorted(a.objs)))))
                        else:
                            sub.append(a)
                    items.append(self.elementwise(st, node, sub, vnk, (k, i), lin, where, extra_tags))
                return I.mkarr(st, node, items=tuple(items), k=('ew', k))
        t, c = I.dtags(st, avs)
        t |= extra_tags
        vns = [self.vn_of(st, a) for a in avs]
        v = self.vn(vnk, *vns) if vnk and all(x is not None for x in vns) else None
        isarr = any(self.is_arr(st, a) or any(st.heap[o].kind in ('list', 'tuple') for o in a.objs if st.heap.get(o))
                    for a in avs)
        if not isarr:
            if avs and all(self.number(a) for a in avs):
                return anynum(t, c, v)
            return AV(any=True, tags=t, ctl=c, vn=v)
        shapes = [self.shape_of(st, a) for a in avs if not (not a.objs)]
        shape = self.broadcast([self.shape_of(st, a) for a in avs])
        if vnk == 'or':
            ln = E0
            for a in avs:
                ln |= self.lin_of(st, a)
        elif where:
            ln = None
            for a in avs[1:]:
                l = self.lin_of(st, a)
                ln = l if ln is None else ln & l
        elif lin:
            ln = None
            for a in avs:
                if self.is_arr(st, a):
                    l = self.lin_of(st, a)
                    ln = l if ln is None else ln & l
        else:
            ln = E0
        return I.mkarr(st, node, tags=t, ctl=c, shape=shape, lin=ln or E0, vn=v, k=('ew', k))

    def rank(self, st, av):
        s = self.shape_of(st, av)
        return len(s) if s is not None else None

    def broadcast(self, shapes):
        best = None
        for s in shapes:
            if s is None:
                return None
            if best is None or len(s) > len(best):
                best, old = s, best
                s = old
                if s is None:
                    continue
            out = list(best)
            for i in range(1, len(s) + 1):
                x, y = out[-i], s[-i]
                if x == y or y == const(1):
                    continue
                if x == const(1):
                    out[-i] = y
                else:
                    out[-i] = ANY
            best = tuple(out)
        return best

    def copy_arr(self, st, node, av, k=0, keep_lin=True, dtype=None):
        """A fresh array with the same contents."""
        I = self.I
        o = I.one(st, av)
        if o is not None and o.kind in ('array', 'list', 'tuple') and o.items is not None and \
                not any(self._is_obj(st, i) for i in o.items):
            items = tuple(self.copy_arr(st, node, i, (k, n), keep_lin, dtype) if i.objs else i
                          for n, i in enumerate(o.items))
            return I.mkarr(st, node, items=items, k=('cp', k), dtype=dtype)
        if o is not None and o.items is not None:
            return I.mkarr(st, node, items=o.items, k=('cp', k))
        if o is not None and o.kind in ('list', 'tuple') or (o is not None and o.kind == 'array' and o.elem is not None):
            t, c = I.dtags(st, [av])
            el = jelem(o)
            keep = frozenset(x for x in el.objs if st.heap.get(x) is not None and st.heap[x].kind not in ('array', 'list', 'tuple'))
            lin = None
            for x in el.objs:
                if st.heap.get(x) is not None and st.heap[x].kind == 'array':
                    l = self.lin_of(st, obj(x))
                    lin = l if lin is None else lin & l
            if el.any or el.consts:
                lin = E0
            return I.mkarr(st, node, tags=t, ctl=c, elem=AV(objs=keep, tags=el.tags, ctl=el.ctl) if keep else None,
                           lin=lin if keep_lin and lin else E0, k=('cp', k))
        t, c = I.dtags(st, [av])
        return I.mkarr(st, node, tags=t, ctl=c, shape=self.shape_of(st, av),
                       lin=self.lin_of(st, av) if keep_lin else E0, vn=self.vn_of(st, av), k=('cp', k),
                       dtype=dtype)

    def _is_obj(self, st, av):
        return any(st.heap.get(x) is not None and st.heap[x].kind in ('inst', 'header', 'hdu', 'dict', 'class')
                   for x in av.objs)

    def arr_store(self, st, av, val, node, how, full=False):
        """Write val into the storage of every array av may denote."""
        I = self.I
        single = len(av.objs) == 1 and not av.any
        for oid0 in sorted(av.objs):
            o0 = st.heap.get(oid0)
            if o0 is None:
                continue
            if o0.kind not in ('array', 'opaque'):
                continue
            isview = o0.kind == 'array' and isinstance(o0.extra, tuple) and o0.extra[0] == 'view'
            oid = self.base_of(st, oid0)
            o = st.heap[oid]
            I.mutate(st, oid, o, how, node)
            if o.items is not None:
                si = self.stack_items(st, val)
                vr = self.rank(st, val)
                ar = self.rank(st, obj(oid))
                per = si is not None and len(si) == len(o.items) and (vr is None or ar is None or vr == ar)
                new = list(o.items)
                for i, it in enumerate(o.items):
                    v = si[i] if per else val
                    if it.objs:
                        self.arr_store(st, it, v, node, how, full)
                        if it.any or it.consts:
                            t, c = I.dtags(st, [v])
                            new[i] = it.with_tags(t, c | I.pc)
                    else:
                        t, c = I.dtags(st, [v])
                        nv = v if full and not v.objs else AV(any=True, tags=it.tags | t, ctl=it.ctl | c | I.pc)
                        new[i] = nv
                o = st.heap[oid]
                st.heap[oid] = o.repl(items=tuple(new))
                continue
            t, c = I.dtags(st, [val])
            c |= I.pc
            vl = self.lin_of(st, val)
            if full and single and not o.summary and not isview:
                st.heap[oid] = o.repl(tags=t, ctl=c, lin=vl, vn=self.vn_of(st, val))
            else:
                ol = o.lin or E0
                nl = ol & vl
                vv = self.vn_of(st, val)
                vn = self.vn('upd', o.vn, vv, _Key(str(node._nid if hasattr(node, '_nid') else node))) \
                    if o.vn is not None and vv is not None else None
                st.heap[oid] = o.repl(tags=o.tags | t, ctl=o.ctl | c, lin=nl, vn=vn)

    # ------------------------------------------------------------ index analysis
    def comps(self, st, k):
        """Classify a subscript: list of (kind, payload)."""
        o = self.I.one(st, k)
        if o is not None and o.kind == 'tuple' and o.items is not None:
            return [self._comp1(st, i) for i in o.items]
        return [self._comp1(st, k)]

    def _comp1(self, st, k):
        s = k.single()
        if s is not None:
            v = s[0]
            if v is None:
                return ('new', None)
            if v is Ellipsis:
                return ('ell', None)
            if isinstance(v, bool):
                return ('fancy', k)
            if isinstance(v, int):
                return ('int', v)
            if isinstance(v, str):
                return ('str', v)
            return ('unk', k)
        if k.consts and not k.objs and not k.any:
            return ('int', None)
        o = self.I.one(st, k)
        I_t = self.I.tables
        if o is not None:
            if o.kind == 'slice':
                return ('slice', o.items)
            if o.kind == 'list':
                return ('fancy', k)
            if o.kind == 'tuple':
                return ('fancy', k)
            if o.kind == 'array':
                if o.shape is not None and len(o.shape) == 0:
                    return ('int', None)
                return ('fancy', k)
            if I_t is not None and I_t.get(st, k) is not None:
                return ('fancy', k)
            if o.kind == 'ext' and o.extra.endswith('newaxis'):
                return ('new', None)
        if k.objs:
            ks = set(st.heap[x].kind for x in k.objs if st.heap.get(x) is not None)
            if ks <= {'slice'}:
                if k.consts or k.any:
                    return ('unk', k)
                return ('slice', (ANY, ANY, ANY))
            if 'array' in ks or 'list' in ks:
                return ('fancy', k)
        return ('unk', k)

    def full_slice(self, p):
        return p[0] in ('ell',) or (p[0] == 'slice' and all(x.single() == (None,) for x in p[1]))

    def is_view(self, st, b, k):
        """Does b[k] alias b's storage (basic indexing)?"""
        if not self.is_arr(st, b):
            return True
        cs = self.comps(st, k)
        return not any(c[0] == 'fancy' for c in cs)

    def idx_text(self, cs):
        out = []
        for c in cs:
            if c[0] == 'slice':
                out.append(':'.join(repr(x.single()[0]) if x.single() is not None else 't%s' % (x.vn,) for x in c[1]))
            elif c[0] in ('int',):
                out.append(repr(c[1]))
            elif c[0] in ('fancy', 'unk'):
                out.append('v%s' % (c[1].vn,))
            else:
                out.append(c[0])
        return ','.join(out)

    def slice_shape(self, shape, cs):
        """Shape after basic indexing, or None."""
        if shape is None:
            return None
        out = []
        dims = list(shape)
        n_explicit = sum(1 for c in cs if c[0] not in ('new', 'ell'))
        for i, c in enumerate(cs):
            if c[0] == 'new':
                out.append(const(1))
            elif c[0] == 'ell':
                rest = sum(1 for d in cs[i + 1:] if d[0] not in ('new', 'ell'))
                while len(dims) > rest:
                    out.append(dims.pop(0))
            elif not dims:
                return None
            elif c[0] == 'int':
                dims.pop(0)
            elif c[0] == 'slice':
                d = dims.pop(0)
                lo, hi, stp = [x.single() for x in c[1]]
                if lo == (None,) and hi == (None,) and stp == (None,):
                    out.append(d)
                elif lo is not None and hi is not None and (stp == (None,)) and isinstance(hi[0], int) and hi[0] >= 0 \
                        and (lo[0] is None or isinstance(lo[0], int) and lo[0] >= 0):
                    dd = d.single()
                    n = hi[0] - (lo[0] or 0)
                    if dd is not None and isinstance(dd[0], int):
                        n = max(0, min(hi[0], dd[0]) - (lo[0] or 0))
                        out.append(const(n))
                    elif dd is None and (lo[0] or 0) == 0 and hi[0] == 1:
                        out.append(const(1))
                    else:
                        out.append(ANY)
                else:
                    out.append(ANY)
            else:
                return None
        return tuple(out + dims)

    def arr_get(self, st, oid, k, node, kk=0):
        I = self.I
        return self.arr_get_c(st, oid, self.comps(st, k), k, node, kk)

    def arr_get_c(self, st, oid, cs, k, node, kk=0):
        I = self.I
        o = st.heap[oid]
        if not cs:
            return obj(oid)
        if cs[0][0] == 'str':
            return AV(any=True).with_tags(*I.deep(st, obj(oid)))
        if o.items is None and o.elem is not None and o.elem.objs:
            # array of objects, individual elements not tracked
            if cs[0][0] == 'int' or cs[0][0] == 'unk':
                return o.elem
            return obj(oid)
        if o.items is not None:
            c0, rest = cs[0], cs[1:]
            if c0[0] == 'int':
                if c0[1] is not None:
                    if -len(o.items) <= c0[1] < len(o.items):
                        el = o.items[c0[1]]
                    else:
                        I.die(st, builtin_mro('IndexError'), node)
                else:
                    el = jall(o.items)
                return self.sub_get(st, el, rest, k, node, (kk, 'i'))
            if c0[0] == 'unk':
                el = jall(o.items)
                ktags = I.dtags(st, [c0[1]])
                return self.sub_get(st, el, rest, k, node, (kk, 'i')).with_tags(E0, ktags[0] | ktags[1])
            if c0[0] == 'slice':
                its = o.items
                lo, hi, stp = [x.single() for x in c0[1]]
                if lo is not None and hi is not None and stp is not None:
                    try:
                        its = o.items[slice(lo[0], hi[0], stp[0])]
                    except Exception:
                        pass
                if len(its) == len(o.items) and not rest:
                    return obj(oid)
                new = tuple(self.sub_get(st, x, rest, k, node, (kk, n)) for n, x in enumerate(its))
                return I.mkarr(st, node, items=new, k=('sl', oid, kk, len(new)), shape=None)
            if c0[0] == 'ell':
                if not rest:
                    return obj(oid)
                new = tuple(self.sub_get(st, x, cs, k, node, (kk, n)) for n, x in enumerate(o.items))
                return I.mkarr(st, node, items=new, k=('sl', oid, kk))
            if c0[0] == 'new':
                inner = self.arr_get_c(st, oid, rest, k, node, (kk, 'n'))
                return I.mkarr(st, node, items=(inner,), k=('na', oid, kk))
            if c0[0] == 'fancy':
                objs_ = any(self._is_obj(st, x) for x in o.items)
                pick = self.known_picks(st, c0[1], len(o.items)) if objs_ or I.tables is not None else None
                if pick is not None and not rest:
                    return I.mkarr(st, node, items=tuple(o.items[i] for i in pick), k=('fa', oid, kk, tuple(pick)))
                if objs_:
                    # representative non-empty selection: every tracked element
                    return I.mkarr(st, node, items=o.items, k=('fa', oid, kk))
                mk = self.stack_items(st, c0[1])
                if mk is not None and any(self.is_arr(st, m) for m in mk):
                    t, c = I.dtags(st, [obj(oid), c0[1]])
                    return I.mkarr(st, node, tags=t, ctl=c, lin=self.lin_of(st, obj(oid)), k=('fa', oid, kk))
                t, c = I.dtags(st, [obj(oid), c0[1]])
                return I.mkarr(st, node, tags=t, ctl=c, lin=self.lin_of(st, obj(oid)), k=('fa', oid, kk))
        b = self.arr(st, oid)
        if any(c[0] == 'fancy' for c in cs):
            t, c = I.dtags(st, [obj(oid)] + [x[1] for x in cs if x[0] == 'fancy'])
            return I.mkarr(st, node, tags=t, ctl=c, lin=b.lin if b.items is None else self.lin_of(st, obj(oid)),
                           vn=self.vn('sel', b.vn, _Key(self.idx_text(cs))) if b.vn is not None and
                           b is st.heap[oid] else None, k=('fa', oid, kk))
        ktags = I.dtags(st, [x[1] for x in cs if x[0] == 'unk'] + [y for x in cs if x[0] == 'slice' for y in x[1]])
        nints = sum(1 for c in cs if c[0] in ('int', 'unk'))
        shape = self.slice_shape(o.shape, [('int', None) if c[0] == 'unk' else c for c in cs])
        if o.shape is not None and nints == len(o.shape) and not any(c[0] in ('ell', 'slice', 'new') for c in cs):
            t, c = I.deep(st, obj(oid))
            t |= ktags[0]
            c |= ktags[1]
            return I.mkarr(st, node, tags=t, ctl=c, shape=(), lin=b.lin, k=('el', oid, kk),
                           vn=self.vn('sel', b.vn, _Key(self.idx_text(cs))) if b.vn is not None and b is st.heap[oid] else None)
        if all(self.full_slice(c) for c in cs) and not any(c[0] == 'new' for c in cs):
            return obj(oid)
        v = self.view(st, node, oid, shape, self.idx_text(cs), kk)
        return v.with_tags(E0, ktags[0] | ktags[1]) if ktags[0] or ktags[1] else v

    def known_picks(self, st, k, n):
        """Positions a known list of numbers or a known mask selects out of n, or None."""
        I = self.I
        if I.tables is not None and I.tables.get(st, k) is not None:
            its = I.tables.seq(st, k)
        else:
            o = I.one(st, k)
            its = o.items if o is not None and o.kind in ('array', 'list') else None
        vs = [x.single() for x in its] if its is not None else [None]
        if any(v is None or not isinstance(v[0], int) for v in vs):
            return None
        vs = [v[0] for v in vs]
        if vs and all(isinstance(v, bool) for v in vs):
            return [i for i, v in enumerate(vs) if v] if len(vs) == n else None
        if any(isinstance(v, bool) or not -n <= v < n for v in vs):
            return None
        return [v % n for v in vs]

    def sub_get(self, st, el, rest, k, node, kk):
        """Apply the remaining index components to an element of a stack."""
        if not rest:
            return el
        r = NOTHING
        for x in sorted(el.objs):
            o = st.heap.get(x)
            if o is not None and o.kind == 'array':
                r = jav(r, self.arr_get_c(st, x, rest, k, node, (kk, x)))
            else:
                r = jav(r, unknown(*self.I.deep(st, obj(x))))
        if el.any or el.consts:
            r = jav(r, unknown(el.tags, el.ctl))
        return r

    def arr_set(self, st, oid, cs, val, node, kk=0):
        I = self.I
        o = st.heap[oid]
        if o.items is not None and cs:
            c0, rest = cs[0], cs[1:]
            if c0[0] == 'ell' and not rest:
                return self.arr_store(st, obj(oid), val, node, 'element store', full=True)
            if c0[0] in ('int', 'unk'):
                base = oid
                I.mutate(st, base, o, 'element store', node)
                if c0[0] == 'int' and c0[1] is not None:
                    if not -len(o.items) <= c0[1] < len(o.items):
                        I.die(st, builtin_mro('IndexError'), node)
                    idx = [c0[1] % len(o.items)]
                else:
                    idx = range(len(o.items))
                for i in idx:
                    it = st.heap[oid].items[i]
                    if not rest and (not it.objs or self._is_obj(st, it)):
                        nv = val if len(idx) == 1 and not o.summary else jav(it, val)
                    else:
                        nv = self.sub_set(st, it, rest, val, node, weak=len(idx) > 1)
                    cur = st.heap[oid]
                    its = list(cur.items)
                    its[i] = nv.with_tags(E0, I.pc)
                    st.heap[oid] = cur.repl(items=tuple(its))
                return
            if c0[0] == 'slice' or c0[0] == 'ell':
                I.mutate(st, oid, o, 'element store', node)
                lo = hi = stp = (None,)
                sel = list(range(len(o.items)))
                if c0[0] == 'slice':
                    lo, hi, stp = [x.single() for x in c0[1]]
                    if lo is not None and hi is not None and stp is not None:
                        try:
                            sel = sel[slice(lo[0], hi[0], stp[0])]
                        except Exception:
                            pass
                r2 = cs if c0[0] == 'ell' else rest
                si = self.stack_items(st, val)
                vr, ar = self.rank(st, val), self.rank(st, obj(oid))
                per = si is not None and len(si) == len(sel) and (vr is None or ar is None or vr == ar or rest)
                for n, i in enumerate(sel):
                    it = st.heap[oid].items[i]
                    v = si[n] if per else val
                    if not r2 and not it.objs:
                        nv = v
                    else:
                        nv = self.sub_set(st, it, r2, v, node, weak=False)
                    cur = st.heap[oid]
                    its = list(cur.items)
                    its[i] = nv.with_tags(E0, I.pc)
                    st.heap[oid] = cur.repl(items=tuple(its))
                return
            if c0[0] == 'fancy':
                I.mutate(st, oid, o, 'element store', node)
                mk = self.stack_items(st, c0[1])
                si = self.stack_items(st, val)
                per = mk is not None and len(mk) == len(o.items) and any(self.is_arr(st, m) for m in mk)
                for i in range(len(o.items)):
                    it = st.heap[oid].items[i]
                    m = mk[i] if per else c0[1]
                    t, c = I.dtags(st, [m])
                    v = si[i] if si is not None and len(si) == len(o.items) else val
                    nv = self.sub_set(st, it, [('fancy', m)] + list(rest), v.with_tags(t, c), node, weak=True)
                    cur = st.heap[oid]
                    its = list(cur.items)
                    its[i] = nv
                    st.heap[oid] = cur.repl(items=tuple(its))
                return
        if o.items is None and o.elem is not None:
            I.mutate(st, oid, o, 'element store', node)
            st.heap[oid] = st.heap[oid].repl(elem=jav(o.elem, val))
            return
        full = bool(cs) and all(self.full_slice(c) for c in cs)
        tags = [x[1] for x in cs if x[0] in ('fancy', 'unk')]
        tags += [y for x in cs if x[0] == 'slice' for y in x[1]]
        t, c = I.dtags(st, tags)
        if full:
            return self.arr_store(st, obj(oid), val, node, 'element store', full=True)
        if t or c:
            # the positions written depend on the index
            v = val
            oid_b = self.base_of(st, oid)
            self.arr_store(st, obj(oid), val, node, 'element store')
            b = st.heap[oid_b]
            if b.items is None:
                st.heap[oid_b] = b.repl(tags=b.tags | t, ctl=b.ctl | c)
            return
        self.arr_store(st, obj(oid), val, node, 'element store')

    def sub_set(self, st, it, rest, val, node, weak):
        """Store through an element of a stack; returns the element's new value."""
        for x in sorted(it.objs):
            o = st.heap.get(x)
            if o is not None and o.kind == 'array':
                if not rest:
                    self.arr_store(st, obj(x), val, node, 'element store', full=not weak and len(it.objs) == 1)
                else:
                    self.arr_set(st, x, rest, val, node)
        if it.any or it.consts:
            t, c = self.I.dtags(st, [val])
            if not rest and not weak and not it.objs:
                return val
            return AV(it.objs, E0, True, False, it.tags | t, it.ctl | c)
        return it

    # ------------------------------------------------------------ generic subscripts
    def get_item(self, st, b, k, node):
        I = self.I
        targets = [('obj', oid, o) for oid, o in I.objs(st, b)]
        if b.consts:
            targets.append(('const', None, None))
        if b.any:
            targets.append(('any', None, None))
        if not targets:
            return ANY

        def run(t, s):
            if t[0] == 'const':
                cs = b.repl(objs=E0, any=False, consts=frozenset(c for c in b.consts if c[1] is not None))
                if not cs.consts:
                    I.die(s, builtin_mro('TypeError'), node)
                return self.const_item(s, cs, k, node)
            if t[0] == 'any':
                tt, cc = I.dtags(s, [k])
                I.may_raise(s, node)
                return unknown(b.tags | tt, b.ctl | cc)
            return self.get1(s, t[1], t[2], k, node)
        if len(targets) > 3 and not any(t[0] == 'obj' and t[2].kind == 'inst' for t in targets):
            # reading changes nothing that exists: no need to keep the alternatives' heaps apart
            from .interp import Dead
            res = []
            for t in targets:
                try:
                    res.append(run(t, st))
                except Dead:
                    continue
            if not res:
                raise Dead()
            return jall(res)
        return I.multi(st, targets, run)

    def const_item(self, st, b, k, node):
        t, c = self.I.dtags(st, [b, k])
        ks = self.I.one(st, k, 'slice')
        if ks is not None:
            pv = [self.pyvals(st, i) for i in ks.items]
            if all(p is not None and len(p) == 1 for p in pv):
                sl = slice(pv[0][0], pv[1][0], pv[2][0])
                r = self.fold(st, lambda s: s[sl], [b])
                if r is not None:
                    return self.lift_all(st, node, r, t, c)
                # suffix / prefix of a partially known text
                out = []
                ok = True
                for x in b.consts:
                    if x[0] == 'Pat':
                        parts = x[1].split('\0')
                        if sl.step is None and isinstance(sl.start, int) and sl.start < 0 and sl.stop is None \
                                and len(parts[-1]) >= -sl.start:
                            out.append(parts[-1][sl])
                        elif sl.step is None and sl.start in (None, 0) and isinstance(sl.stop, int) and sl.stop >= 0 \
                                and len(parts[0]) >= sl.stop:
                            out.append(parts[0][sl])
                        elif sl.step is None and sl.start is None and isinstance(sl.stop, int) and sl.stop < 0 \
                                and len(parts[-1]) >= -sl.stop:
                            out.append('\0'.join(parts[:-1] + [parts[-1][:sl.stop]]))
                        else:
                            ok = False
                    elif x[0] == 'str':
                        out.append(x[1][sl])
                    else:
                        ok = False
                if ok and out:
                    return self.strs(out, t, c)
        else:
            r = self.fold(st, lambda s, i: s[i], [b, k])
            if r is not None:
                return self.lift_all(st, node, r, t, c)
        return unknown(t, c)

    def get1(self, st, oid, o, k, node):
        I = self.I
        kd = o.kind
        if kd == 'array':
            return self.arr_get(st, oid, k, node)
        if kd in ('list', 'tuple'):
            return self.seq_get(st, oid, o, k, node)
        if kd == 'dict':
            keys = self.dict_keys(st, k)
            t, c = I.dtags(st, [k])
            if keys is None:
                I.may_raise(st, node, builtin_mro('KeyError'))
                return jav(jelem(o), unknown() if (jelem(o).empty) else NOTHING).with_tags(E0, t | c)
            r = NOTHING
            miss = False
            for key in keys:
                if o.items is not None and key in o.items and o.items[key][1] != 'n':
                    r = jav(r, o.items[key][0])
                    if o.items[key][1] == 'm':
                        miss = True
                elif o.elem is not None:
                    r = jav(r, o.elem)
                    miss = True
                else:
                    miss = True
            if r.empty:
                I.die(st, builtin_mro('KeyError'), node)
            if miss:
                I.may_raise(st, node, builtin_mro('KeyError'))
            return r.with_tags(E0, t | c)
        if kd == 'header':
            return self.hdr_get(st, oid, o, k, node)
        if kd == 'inst' and o.cls is not None:
            cv = I.class_lookup(st, o.cls, '__getitem__')
            if isinstance(cv, AV):
                return I.call(st, cv, [obj(oid), k], {}, node)
            t, c = I.dtags(st, [obj(oid), k])
            return unknown(t, c)
        if kd == 'hdulist':
            return self.hdul_get(st, oid, o, k, node)
        if kd == 'set':
            I.die(st, builtin_mro('TypeError'), node)
        if kd == 'ext':
            return self.ext_attr(st, o, '[]', node)
        t, c = I.dtags(st, [obj(oid), k])
        if kd == 'opaque':
            if I.tables is not None and I.tables.is_tab(o):
                return I.tables.getitem(st, oid, o, k, node)
            return obj(self.derived(st, node, oid, '[]'))
        return unknown(t, c)

    def derived(self, st, node, oid, what):
        """Opaque value obtained from an opaque object (shares its contents)."""
        o = st.heap[oid]
        t, c = self.I.deep(st, obj(oid))
        return self.I.alloc(st, node, Obj('opaque', tags=t, ctl=c, extra=o.extra), ('dv', oid, what))

    def seq_get(self, st, oid, o, k, node):
        I = self.I
        s = I.one(st, k, 'slice')
        if s is not None:
            if o.items is not None:
                pv = [self.pyvals(st, i) for i in s.items]
                if all(p is not None and len(p) == 1 for p in pv):
                    sl = slice(pv[0][0], pv[1][0], pv[2][0])
                    return I.new(st, node, o.kind, k=('sl', oid), items=tuple(o.items[sl]))
            return I.new(st, node, o.kind, k=('sl', oid), elem=jelem(o))
        ks = k.concrete()
        t, c = I.dtags(st, [k])
        if o.items is not None and ks is not None and all(isinstance(x, int) for x in ks):
            r = NOTHING
            for x in ks:
                if -len(o.items) <= x < len(o.items):
                    r = jav(r, o.items[x])
            if r.empty:
                I.die(st, builtin_mro('IndexError'), node)
            return r.with_tags(E0, t | c)
        r = jelem(o)
        if r.empty:
            return unknown(t, c)
        return r.with_tags(E0, t | c)

    def set_item(self, st, b, k, v, node, aug=None):
        I = self.I
        v = bound(v).with_tags(E0, I.pc)
        strong = len(b.objs) == 1 and not b.any
        for oid, o in I.objs(st, b):
            kd = o.kind
            if kd == 'array':
                self.arr_set(st, oid, self.comps(st, k), v, node)
            elif kd == 'list':
                I.mutate(st, oid, o, 'element store', node)
                ks = k.single()
                if o.items is not None and ks is not None and isinstance(ks[0], int):
                    i = ks[0]
                    if -len(o.items) <= i < len(o.items):
                        its = list(o.items)
                        its[i] = v if strong and not o.summary else jav(its[i], v)
                        st.heap[oid] = o.repl(items=tuple(its))
                    else:
                        I.die(st, builtin_mro('IndexError'), node)
                elif o.items is not None and I.one(st, k, 'slice') is None:
                    t, c = I.dtags(st, [k])
                    st.heap[oid] = o.repl(items=tuple(jav(i, v).with_tags(E0, t | c) for i in o.items))
                else:
                    vv = v
                    if I.one(st, k, 'slice') is not None:
                        kind, its = self.iterate(st, v, node)
                        vv = jall(its) if kind == 'known' else its
                    st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), vv))
            elif kd == 'dict':
                self.dict_set(st, oid, o, k, v, node, strong)
            elif kd == 'header':
                self.hdr_set(st, oid, o, k, v, node, strong)
            elif kd == 'hdulist':
                I.mutate(st, oid, o, 'element store', node)
                ks = k.single()
                if o.items is not None and ks is not None and isinstance(ks[0], int) and -len(o.items) <= ks[0] < len(o.items):
                    its = list(o.items)
                    its[ks[0]] = v
                    st.heap[oid] = o.repl(items=tuple(its))
            elif kd == 'inst' and o.cls is not None:
                cv = I.class_lookup(st, o.cls, '__setitem__')
                if isinstance(cv, AV):
                    I.call(st, cv, [obj(oid), k, v], {}, node)
                else:
                    I.mutate(st, oid, o, 'element store', node)
            elif kd == 'opaque' and I.tables is not None and I.tables.is_tab(o) and I.tables.setitem(st, oid, o, k, v, node):
                pass
            elif kd == 'opaque':
                I.mutate(st, oid, o, 'element store', node)
                t, c = I.dtags(st, [v, k])
                st.heap[oid] = o.repl(tags=o.tags | t, ctl=o.ctl | c)
            elif kd in ('tuple',):
                I.may_raise(st, node, builtin_mro('TypeError'))
            elif kd == 'ext':
                I.effect('setitem-ext:' + o.extra, node, v, st)

    def dict_set(self, st, oid, o, k, v, node, strong):
        I = self.I
        I.mutate(st, oid, o, 'item store', node)
        o = st.heap[oid]
        keys = self.dict_keys(st, k)
        items = dict(o.items or {})
        if keys is not None and len(keys) == 1 and strong and not o.summary:
            items[keys[0]] = (v, 'y')
            st.heap[oid] = o.repl(items=items)
            return
        if keys is not None:
            for key in keys:
                if key in items:
                    cur = items[key]
                    items[key] = (jav(cur[0], v) if cur[1] != 'n' else v, cur[1] if cur[1] == 'y' else 'm')
                else:
                    items[key] = (v if o.elem is None else jav(v, o.elem), 'm')
            st.heap[oid] = o.repl(items=items)
            return
        t, c = I.dtags(st, [k])
        v = v.with_tags(E0, t | c)
        items = {kk: (jav(vv, v), p) for kk, (vv, p) in items.items()}
        st.heap[oid] = o.repl(items=items, elem=v if o.elem is None else jav(o.elem, v))

    def del_item(self, st, b, k, node):
        I = self.I
        for oid, o in I.objs(st, b):
            if o.kind == 'header':
                self.hdr_del(st, oid, o, k, node)
            elif o.kind == 'dict':
                I.mutate(st, oid, o, 'item delete', node)
                keys = self.dict_keys(st, k)
                items = dict(o.items or {})
                for key in (keys if keys is not None else list(items)):
                    if key in items:
                        if keys is not None and len(keys) == 1:
                            if items[key][1] == 'm':
                                I.may_raise(st, node, builtin_mro('KeyError'))
                            del items[key]
                        else:
                            items[key] = (items[key][0], 'm')
                st.heap[oid] = o.repl(items=items)
            elif o.kind == 'list':
                I.mutate(st, oid, o, 'item delete', node)
                ks = k.single()
                if o.items is not None and ks is not None and isinstance(ks[0], int) and -len(o.items) <= ks[0] < len(o.items):
                    its = list(o.items)
                    del its[ks[0]]
                    st.heap[oid] = o.repl(items=tuple(its))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jelem(o))
            else:
                I.mutate(st, oid, o, 'item delete', node)

    def refine_key(self, st, oid, o, key, present):
        if o.kind == 'header':
            kk = self.hkey(key)
            if kk is None:
                return True
            cur = o.items.get(kk)
            if cur is None:
                if not o.open:
                    return not present
                cur = (unknown(hdr_key_tags(o, kk)), 'm')
            if present and cur[1] == 'n' or (not present and cur[1] == 'y'):
                return False
            items = dict(o.items)
            items[kk] = (cur[0], 'y') if present else (NOTHING, 'n')
            st.heap[oid] = o.repl(items=items)
            return True
        keys = self.dict_keys(st, const(key))
        if keys is None:
            return True
        kk = keys[0]
        cur = (o.items or {}).get(kk)
        if cur is None:
            if o.elem is None and not o.summary:
                return not present
            if present:
                st.heap[oid] = o.repl(items=dict(o.items or {}, **{}) | {kk: (o.elem or ANY, 'y')})
            return True
        if present and cur[1] == 'n' or (not present and cur[1] == 'y'):
            return False
        if present:
            st.heap[oid] = o.repl(items=dict(o.items) | {kk: (cur[0], 'y')})
        return True

    # ------------------------------------------------------------ iteration
    def iterate(self, st, it, node):
        """('known', [AV...]) or ('unknown', AV)."""
        I = self.I
        alts = []
        for oid, o in I.objs(st, it):
            alts.append(self.iter1(st, oid, o, node))
        cs = frozenset(c for c in it.consts if c[1] is not None)
        if cs:
            if len(cs) == 1 and not it.objs and not it.any:
                c = next(iter(cs))
                if c[0] == 'str' and len(c[1]) <= 30:
                    alts.append(('known', [const(x) for x in c[1]]))
                else:
                    alts.append(('unknown', unknown(it.tags, it.ctl)))
            else:
                alts.append(('unknown', unknown(it.tags, it.ctl)))
        elif it.consts and not it.objs and not it.any:
            I.die(st, builtin_mro('TypeError'), node)
        if it.any:
            alts.append(('unknown', unknown(it.tags, it.ctl)))
        if not alts:
            return 'unknown', ANY
        if len(alts) == 1:
            return alts[0]
        if all(a[0] == 'known' for a in alts) and len(set(len(a[1]) for a in alts)) == 1:
            return 'known', [jall(x) for x in zip(*[a[1] for a in alts])]
        r = NOTHING
        for a in alts:
            r = jav(r, jall(a[1]) if a[0] == 'known' else a[1])
        return 'unknown', r

    def iter1(self, st, oid, o, node):
        I = self.I
        kd = o.kind
        if kd in ('list', 'tuple', 'hdulist'):
            if o.items is not None and not o.open:
                return 'known', list(o.items)
            e = jelem(o)
            return 'unknown', e if not e.empty else ANY
        if kd == 'array':
            if o.items is not None:
                return 'known', list(o.items)
            if o.elem is not None and o.elem.objs:
                return 'unknown', o.elem
            sh = o.shape
            if sh is not None and len(sh) == 1:
                t, c = I.deep(st, obj(oid))
                return 'unknown', I.mkarr(st, node, tags=t, ctl=c, shape=(), k=('it', oid),
                                          lin=self.lin_of(st, obj(oid)))
            if sh is not None and len(sh) > 1:
                n = sh[0].single()
                if n is not None and isinstance(n[0], int) and 0 < n[0] <= 4:
                    return 'known', [self.view(st, node, oid, sh[1:], 'it%d' % i) for i in range(n[0])]
            return 'unknown', self.view(st, node, oid, sh[1:] if sh else None, 'it')
        if kd == 'set':
            I.effect('set-iteration', node, None, st)
            if o.items is not None and not o.summary:
                if len(o.items) <= 1:
                    return 'known', list(o.items)
                e = jelem(o)
                return 'unknown', e.with_tags(frozenset(('!set-order',)))
            e = jelem(o)
            return 'unknown', (e if not e.empty else ANY).with_tags(frozenset(('!set-order',)))
        if kd == 'dict':
            if o.items is not None and o.elem is None and all(v[1] == 'y' for v in o.items.values()) and not o.summary:
                return 'known', [self.key_av(st, k, node) for k in o.items]
            ks = [self.key_av(st, k, node) for k, v in (o.items or {}).items() if v[1] != 'n']
            r = jall(ks)
            if o.elem is not None or r.empty:
                r = jav(r, ANY)
            return 'unknown', r
        if kd == 'header':
            if not o.open and all(v[1] == 'y' for v in o.items.values()) and not o.summary:
                return 'known', [const(k) for k in o.items]
            return 'unknown', unknown(o.escaped)
        if kd == 'inst' and o.cls is not None:
            cv = I.class_lookup(st, o.cls, '__iter__')
            if isinstance(cv, AV):
                r = I.call(st, cv, [obj(oid)], {}, node)
                if r.objs and oid not in r.objs:
                    return self.iterate(st, r, node)
            cv = I.class_lookup(st, o.cls, '__getitem__')
            cl = I.class_lookup(st, o.cls, '__len__')
            if isinstance(cv, AV) and isinstance(cl, AV):
                n = I.call(st, cl, [obj(oid)], {}, node).single()
                if n is not None and isinstance(n[0], int) and n[0] <= 16:
                    return 'known', [I.call(st, cv, [obj(oid), const(i)], {}, node) for i in range(n[0])]
            t, c = I.deep(st, obj(oid))
            return 'unknown', unknown(t, c)
        if kd == 'iter':
            return o.extra, list(o.items) if o.items is not None else o.elem
        if kd == 'opaque':
            if I.tables is not None and I.tables.is_tab(o):
                return 'known', I.tables.iterate(st, o, node)
            return 'unknown', obj(self.derived(st, node, oid, 'it'))
        if kd in ('slice', 'func', 'class', 'module'):
            I.die(st, builtin_mro('TypeError'), node)
        t, c = I.deep(st, obj(oid))
        return 'unknown', unknown(t, c)

    # ------------------------------------------------------------ headers
    def hkey(self, k):
        if isinstance(k, str):
            k = k.strip().upper()
            return k[9:].strip() if k.startswith('HIERARCH ') else k
        return None

    def hdr_has(self, st, o, item):
        if item.any or item.objs or item.empty:
            return {True, False}
        res = set()
        for c in item.consts:
            k = self.hkey(c[1]) if is_concrete(c) else None
            if k is None:
                res |= {True, False}
                continue
            cur = o.items.get(k)
            if k == 'HISTORY':
                if o.hist is not None and o.hist[1] > 0:
                    res.add(True)
                else:
                    res |= {True, False}
                continue
            if cur is None:
                res |= {True, False} if o.open or (o.elem is not None) else {False}
            else:
                res |= {'y': {True}, 'n': {False}, 'm': {True, False}}[cur[1]]
        return res

    def hdr_new(self, st, node, k=0, open=False, tags=E0, items=None, origin=None):
        return obj(self.I.alloc(st, node, Obj('header', items=items or {}, open=open, escaped=tags,
                                              hist=(False, 0, E0), origin=origin), ('hdr', k)))

    def hdr_copy(self, st, node, oid, k=0):
        o = st.heap[oid]
        return obj(self.I.alloc(st, node, o.repl(origin=None, summary=False, site=None), ('hcp', oid, k)))

    def hdr_read(self, o, k):
        """(value, presence) of a key."""
        cur = o.items.get(k)
        if cur is not None:
            v = cur[0]
            if cur[1] == 'n':
                return NOTHING, 'n'
            if o.elem is not None:
                v = jav(v, o.elem)
            return v, cur[1]
        if o.open:
            v = unknown(hdr_key_tags(o, k))
            if o.elem is not None:
                v = jav(v, o.elem)
            return v, 'm'
        if o.elem is not None:
            return o.elem, 'm'
        return NOTHING, 'n'

    def hdr_get(self, st, oid, o, k, node):
        I = self.I
        t, c = I.dtags(st, [k])
        if k.any or k.objs or k.empty or not all(is_concrete(x) for x in k.consts):
            I.may_raise(st, node, builtin_mro('KeyError'))
            r = jall([v[0] for v in o.items.values()])
            return jav(r.repl(objs=E0), unknown(o.escaped)).with_tags(E0, t | c)
        r = NOTHING
        for x in sorted(k.consts, key=repr):
            kk = self.hkey(x[1])
            if kk is None:
                r = jav(r, unknown(o.escaped))
                continue
            if kk in ('HISTORY', 'COMMENT'):
                r = jav(r, unknown(o.escaped))
                continue
            v, p = self.hdr_read(o, kk)
            if p == 'n':
                continue
            if p == 'm':
                I.may_raise(st, node, builtin_mro('KeyError'))
            r = jav(r, v)
        if r.empty:
            I.die(st, builtin_mro('KeyError'), node)
        return r.with_tags(E0, t | c)

    def hdr_hist(self, st, oid, o, v, strong, how='HISTORY'):
        h = o.hist or (True, 0, E0)
        t, c = self.I.dtags(st, [v])
        texts = frozenset((x, t) for x in self.texts(v))
        allt = h[2] | texts
        if not strong or o.summary:
            allt |= WEAK_HIST
        if len(allt) > 30:
            allt = frozenset(sorted(allt, key=repr)[:30]) | (allt & WEAK_HIST)
        n = h[1] + (1 if strong and not o.summary else 0)
        st.heap[oid] = o.repl(hist=(h[0], min(n, 4), allt))

    def hdr_set(self, st, oid, o, k, v, node, strong=True):
        I = self.I
        if k.single() is not None and self.hkey(k.single()[0]) is not None:
            kk = self.hkey(k.single()[0])
            I.mutate(st, oid, o, 'key %s' % kk, node)
            o = st.heap[oid]
            if kk == 'HISTORY':
                return self.hdr_hist(st, oid, o, v, strong)
            if kk in ('COMMENT', ''):
                return
            # (value, comment) tuples
            to = I.one(st, v, 'tuple')
            if to is not None and to.items is not None and to.items:
                v = to.items[0]
            items = dict(o.items)
            if strong and not o.summary:
                items[kk] = (v, 'y')
            else:
                cur = self.hdr_read(o, kk)
                items[kk] = (jav(cur[0], v) if cur[1] != 'n' else v, 'y' if cur[1] == 'y' else 'm')
            st.heap[oid] = o.repl(items=items)
            return
        I.mutate(st, oid, o, 'key ?', node)
        o = st.heap[oid]
        t, c = I.dtags(st, [k])
        v = v.with_tags(E0, t | c).repl(objs=E0)
        txts = self.texts(k)
        if k.consts and not k.any and not k.objs:
            # finitely many (possibly partial) key names
            items = dict(o.items)
            for x in txts:
                kk = x.strip().upper()
                cur = items.get(kk)
                items[kk] = (v if cur is None or cur[1] == 'n' else jav(cur[0], v),
                             'y' if len(txts) == 1 or (cur is not None and cur[1] == 'y') else 'm')
            st.heap[oid] = o.repl(items=items)
        else:
            st.heap[oid] = o.repl(elem=v if o.elem is None else jav(o.elem, v))

    def hdr_del(self, st, oid, o, k, node):
        I = self.I
        s = k.single()
        I.mutate(st, oid, o, 'key delete', node)
        o = st.heap[oid]
        if s is not None and self.hkey(s[0]):
            kk = self.hkey(s[0])
            if kk == 'HISTORY':
                st.heap[oid] = o.repl(hist=(False, 0, E0))
                return
            v, p = self.hdr_read(o, kk)
            if p == 'n':
                I.die(st, builtin_mro('KeyError'), node)
            if p == 'm':
                I.may_raise(st, node, builtin_mro('KeyError'))
            items = dict(o.items)
            if o.summary:
                items[kk] = (v, 'm')
            else:
                items[kk] = (NOTHING, 'n')
            st.heap[oid] = o.repl(items=items)
            return
        I.may_raise(st, node, builtin_mro('KeyError'))
        items = {kk: (v, 'm' if p != 'n' else 'n') for kk, (v, p) in o.items.items()}
        h = o.hist
        st.heap[oid] = o.repl(items=items)
