"""Methods and attributes of lists, dictionaries, sets, strings and opaque library objects."""
import re as _re
from .core import *
from .values import FOLD_STR

ARR_ATTR_SCALAR = {'size', 'nbytes', 'itemsize', 'ndim', 'dtype', 'strides', 'flags'}
#  methods of opaque library objects that change the object
OPAQUE_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'update', 'clear', 'sort', 'reverse', 'add', 'drop_inplace',
              'add_row', 'add_column', 'rename_column', 'remove_column', 'set', 'fill', 'shuffle'}
FS_WRITE_METHODS = {'writeto', 'to_csv', 'write_text', 'write_bytes', 'mkdir', 'unlink', 'rmdir', 'rename', 'touch', 'savefig',
                    'to_pickle', 'to_excel', 'to_json', 'symlink_to', 'to_hdf', 'to_parquet'}
RNG_METHODS = {'integers', 'normal', 'poisson', 'uniform', 'random', 'choice', 'standard_normal', 'permutation', 'shuffle',
               'gamma', 'binomial', 'exponential', 'rvs', 'randint', 'rand', 'randn'}


class ObjModels:
    # ------------------------------------------------------------ dispatch
    def call_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        k = o.kind
        if k == 'array':
            if o.items is None and o.elem is not None and o.elem.objs and name not in ('copy', 'astype', 'tolist'):
                pass
            return self.arr_method(st, oid, o, name, args, kw, node)
        f = getattr(self, {'list': 'list_method', 'dict': 'dict_method', 'set': 'set_method', 'header': 'hdr_method',
                           'hdulist': 'hdul_method', 'hdu': 'hdu_method', 'tuple': 'tuple_method',
                           'opaque': 'opaque_method', 'iter': 'iter_method'}.get(k, ''), None)
        if f is not None:
            return f(st, oid, o, name, args, kw, node)
        if k == 'exc':
            return unknown()
        a = self.obj_attr(st, oid, o, name, node)
        if a is not None and a.objs and not a.any:
            return I.call(st, a, args, kw, node)
        return self.unknown_call(st, node, [obj(oid)] + list(args), kw, '.' + name)

    def list_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        if name == 'append' and pa:
            I.mutate(st, oid, o, '.append', node)
            o = st.heap[oid]
            v = bound(pa[0]).with_tags(E0, I.pc)
            if o.items is not None and not o.summary and len(o.items) < 64:
                st.heap[oid] = o.repl(items=o.items + (v,))
            else:
                st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), v))
            return NONE
        if name in ('extend', '__iadd__') and pa:
            I.mutate(st, oid, o, '.extend', node)
            kind, its = self.iterate(st, pa[0], node)
            o = st.heap[oid]
            if kind == 'known' and o.items is not None and not o.summary and len(o.items) + len(its) < 64:
                st.heap[oid] = o.repl(items=o.items + tuple(i.with_tags(E0, I.pc) for i in its))
            else:
                st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), jall(its) if kind == 'known' else its))
            return NONE
        if name == 'insert' and len(pa) > 1:
            I.mutate(st, oid, o, '.insert', node)
            o = st.heap[oid]
            s = pa[0].single()
            if o.items is not None and s is not None and not o.summary:
                l = list(o.items)
                l.insert(s[0], bound(pa[1]))
                st.heap[oid] = o.repl(items=tuple(l))
            else:
                st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), pa[1]))
            return NONE
        if name == 'pop':
            I.mutate(st, oid, o, '.pop', node)
            o = st.heap[oid]
            s = pa[0].single() if pa else (-1,)
            if o.items is not None and s is not None and not o.summary:
                l = list(o.items)
                try:
                    r = l.pop(s[0])
                except IndexError:
                    I.die(st, builtin_mro('IndexError'), node)
                st.heap[oid] = o.repl(items=tuple(l))
                return r
            r = jelem(o)
            st.heap[oid] = o.repl(items=None, elem=r)
            return r if not r.empty else ANY
        if name in ('remove', 'clear', 'reverse', 'sort'):
            I.mutate(st, oid, o, '.' + name, node)
            o = st.heap[oid]
            if name == 'sort' and 'key' in kw:
                self.callback(st, kw['key'], [jelem(o)], node)
            if name == 'clear':
                st.heap[oid] = o.repl(items=() if not o.summary else None, elem=None if not o.summary else jelem(o))
            elif name == 'reverse' and o.items is not None and not o.summary:
                st.heap[oid] = o.repl(items=tuple(reversed(o.items)))
            elif name == 'remove':
                v = pa[0].single() if pa else None
                if o.items is not None and v is not None and all(i.single() is not None for i in o.items):
                    l = [i for i in o.items]
                    for n, i in enumerate(l):
                        if i.single() == v:
                            del l[n]
                            break
                    else:
                        I.die(st, builtin_mro('ValueError'), node)
                    st.heap[oid] = o.repl(items=tuple(l))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jelem(o))
            elif name == 'sort':
                el = jelem(o)
                el = el.repl(tags=el.tags - frozenset(('!set-order', '!fs-order')))
                if o.items is not None:
                    pv = [i.single() for i in o.items]
                    if all(p is not None for p in pv) and 'key' not in kw:
                        try:
                            o2 = tuple(const(x) for x in sorted(p[0] for p in pv))
                            st.heap[oid] = o.repl(items=o2)
                            return NONE
                        except TypeError:
                            pass
                    st.heap[oid] = o.repl(items=tuple(el for _ in o.items))
                else:
                    st.heap[oid] = o.repl(elem=el)
            return NONE
        if name in ('copy', '__copy__'):
            return I.new(st, node, 'list', k='lc', items=o.items, elem=o.elem)
        return self.tuple_method(st, oid, o, name, args, kw, node)

    def tuple_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        if name in ('index', 'count'):
            r = self.fold(st, (lambda a, b: a.index(b)) if name == 'index' else (lambda a, b: a.count(b)),
                          [obj(oid)] + pa[:1])
            if r is not None:
                return self.lift_all(st, node, r, E0, E0)
            I.may_raise(st, node, builtin_mro('ValueError'))
            t, c = I.dtags(st, [obj(oid)] + pa)
            return unknown(t, c)
        if name == '__len__':
            return self.b_len(st, [obj(oid)], {}, node)
        if name == '__contains__' and pa:
            return AV(consts=frozenset(C(x) for x in self.contains(st, obj(oid), pa[0], node)))
        if name == '__iter__':
            return obj(oid)
        if name == '__getitem__' and pa:
            return self.get_item(st, obj(oid), pa[0], node)
        t, c = I.dtags(st, [obj(oid)] + pa)
        return unknown(t, c)

    def iter_method(self, st, oid, o, name, args, kw, node):
        t, c = self.I.deep(st, obj(oid))
        return unknown(t, c)

    def dict_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        me = obj(oid)
        known = o.items is not None and o.elem is None and not o.summary and all(p == 'y' for _, p in o.items.values())
        if name == 'keys':
            kind, its = self.iter1(st, oid, o, node)
            if kind == 'known':
                return I.new(st, node, 'list', k=('dk', oid), items=tuple(its))
            return I.new(st, node, 'list', k=('dk', oid), elem=its)
        if name == 'values':
            if known:
                return I.new(st, node, 'list', k=('dv', oid), items=tuple(v for v, _ in o.items.values()))
            r = jelem(o)
            return I.new(st, node, 'list', k=('dv', oid), elem=r if not r.empty else ANY)
        if name == 'items':
            if known:
                return I.new(st, node, 'list', k=('di', oid), items=tuple(
                    I.new(st, node, 'tuple', k=('di', oid, i), items=(self.key_av(st, k, node), v))
                    for i, (k, (v, _)) in enumerate(o.items.items())))
            r = jelem(o)
            _, ks = self.iter1(st, oid, o, node)
            return I.new(st, node, 'list', k=('di', oid), elem=I.new(
                st, node, 'tuple', k=('dip', oid), items=(ks if isinstance(ks, AV) else jall(ks), r if not r.empty else ANY)))
        if name in ('get', 'pop', 'setdefault'):
            k = pa[0] if pa else ANY
            d = pa[1] if len(pa) > 1 else kw.get('default', NONE if name != 'pop' else None)
            keys = self.dict_keys(st, k)
            r = NOTHING
            miss = False
            if keys is None:
                r = jelem(o)
                miss = True
            else:
                for key in keys:
                    it = (o.items or {}).get(key)
                    if it is not None and it[1] != 'n':
                        r = jav(r, it[0])
                        miss = miss or it[1] == 'm'
                    elif o.elem is not None:
                        r = jav(r, o.elem)
                        miss = True
                    else:
                        miss = True
            if miss:
                if d is not None:
                    r = jav(r, d)
                else:
                    if r.empty:
                        I.die(st, builtin_mro('KeyError'), node)
                    I.may_raise(st, node, builtin_mro('KeyError'))
            if name == 'pop':
                I.mutate(st, oid, o, '.pop', node)
                o = st.heap[oid]
                if keys is not None and len(keys) == 1 and not o.summary:
                    items = dict(o.items or {})
                    items.pop(keys[0], None)
                    st.heap[oid] = o.repl(items=items)
            elif name == 'setdefault' and miss:
                self.dict_set(st, oid, o, k, r, node, True)
            return r if not r.empty else ANY
        if name in ('update', '__ior__'):
            I.mutate(st, oid, o, '.update', node)
            for a in pa:
                for x, xo in I.objs(st, a):
                    o = st.heap[oid]
                    if xo.kind == 'dict':
                        items = dict(o.items or {})
                        for k, (v, p) in (xo.items or {}).items():
                            if p == 'n':
                                continue
                            if p == 'y' and not o.summary and len(a.objs) == 1:
                                items[k] = (v, 'y')
                            else:
                                cur = items.get(k)
                                items[k] = (jav(cur[0], v) if cur else v, 'm' if not cur else cur[1])
                        el = o.elem
                        if xo.elem is not None:
                            el = xo.elem if el is None else jav(el, xo.elem)
                        st.heap[oid] = o.repl(items=items, elem=el)
                    else:
                        t, c = I.deep(st, obj(x))
                        st.heap[oid] = o.repl(elem=jav(o.elem or NOTHING, unknown(t, c)))
                if a.any:
                    o = st.heap[oid]
                    st.heap[oid] = o.repl(elem=jav(o.elem or NOTHING, unknown(a.tags, a.ctl)))
            for k, v in kw.items():
                self.dict_set(st, oid, st.heap[oid], const(k), bound(v), node, True)
            return NONE
        if name in ('copy', '__copy__'):
            return I.new(st, node, 'dict', k='dcp', items=dict(o.items or {}), elem=o.elem)
        if name in ('clear', 'popitem', '__delitem__'):
            I.mutate(st, oid, o, '.' + name, node)
            if name == 'clear' and not o.summary:
                st.heap[oid] = st.heap[oid].repl(items={}, elem=None)
            elif name == '__delitem__' and pa:
                self.del_item(st, me, pa[0], node)
            return NONE if name != 'popitem' else ANY
        if name == '__getitem__' and pa:
            return self.get_item(st, me, pa[0], node)
        if name == '__setitem__' and len(pa) > 1:
            self.set_item(st, me, pa[0], pa[1], node)
            return NONE
        if name == '__contains__' and pa:
            return AV(consts=frozenset(C(x) for x in self.contains(st, me, pa[0], node)))
        t, c = I.dtags(st, [me] + pa)
        return unknown(t, c)

    def set_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop', 'intersection_update', 'difference_update'):
            I.mutate(st, oid, o, '.' + name, node)
            o = st.heap[oid]
            if name == 'add' and pa:
                v = bound(pa[0])
                if o.items is not None and not o.summary and (v.single() is not None or I.one(st, v) is not None) and len(o.items) < 40:
                    if v not in o.items:
                        st.heap[oid] = o.repl(items=o.items + (v,))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), v))
                return NONE
            if name == 'update' and pa:
                kind, its = self.iterate(st, pa[0], node)
                st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), jall(its) if kind == 'known' else its))
                return NONE
            r = jelem(o)
            st.heap[oid] = o.repl(items=None, elem=r)
            return r.with_tags(frozenset(('!set-order',))) if name == 'pop' and not r.empty else NONE
        if name == 'copy':
            return I.new(st, node, 'set', k='sc', items=o.items, elem=o.elem)
        el = jelem(o)
        for a in pa:
            kind, its = self.iterate(st, a, node) if not any(x.kind == 'set' for _, x in I.objs(st, a)) else \
                ('unknown', jall([jelem(x) for _, x in I.objs(st, a)]))
            el = jav(el, jall(its) if kind == 'known' else its)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return I.new(st, node, 'set', k='sop', elem=el)
        return unknown(el.tags, el.ctl)

    # ------------------------------------------------------------ strings and numbers
    def const_attr(self, st, b, name, node):
        if name in ('real', 'imag', 'T', 'data'):
            return b
        return self.I.new(st, node, 'bmeth', k=('bm', name), items=(b,), extra=name)

    def const_method(self, st, b, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        t, c = I.dtags(st, [b] + pa + list(kw.values()))
        if name in FOLD_STR:
            def f(s, *a):
                return getattr(s, name)(*a)
            if not kw:
                r = self.fold(st, f, [b] + pa)
                if r is not None:
                    return self.lift_all(st, node, r, t, c)
            if name == 'join' and pa:
                kind, its = self.iterate(st, pa[0], node)
                sep = b.single()
                if kind == 'known' and sep is not None:
                    parts = []
                    for i, x in enumerate(its):
                        if i:
                            parts.append([sep[0]])
                        parts.append(self.texts(x))
                    return self.concat_strings(parts, t, c)
                tt, cc = I.dtags(st, [its] if kind != 'known' else its)
                return AV(consts=frozenset((C(Pat('\0')),)), tags=t | tt, ctl=c | cc)
            if name == 'format':
                return self.str_format(st, b, pa, kw, t, c)
            if name in ('endswith', 'startswith'):
                return self.pat_affix(st, b, name, pa, t, c)
            if name in ('replace', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'title', 'zfill', 'capitalize', 'rjust',
                        'ljust', 'removesuffix', 'removeprefix'):
                return self.pat_map(st, b, name, pa, t, c)
            if name in ('split', 'rsplit'):
                out = self.pat_split(st, b, name, pa, node, t, c)
                if out is not None:
                    return out
                return I.new(st, node, 'list', k='spl', elem=AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c))
            if name in ('partition', 'rpartition'):
                p = AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
                return I.new(st, node, 'tuple', k='part', items=(p, p, p))
            if name in ('index', 'rindex'):
                I.may_raise(st, node, builtin_mro('ValueError'))
            return unknown(t, c)
        if name in ('copy', 'item', 'astype', 'round', 'flatten', 'squeeze'):
            return b
        return unknown(t, c)

    def str_format(self, st, b, pa, kw, t, c):
        out = []
        for s in self.texts(b):
            if '\0' in s:
                out.append('\0')
                continue
            try:
                import string
                acc = ['']
                auto = 0
                for lit, fld, spec, conv in string.Formatter().parse(s):
                    parts = [lit]
                    acc = [a + lit for a in acc]
                    if fld is not None:
                        key = fld
                        ch = ['\0']
                        if key == '':
                            key = str(auto)
                            auto += 1
                        if key.isdigit() and int(key) < len(pa):
                            ch = self.fmt_choices(pa[int(key)], spec or '', ord(conv) if conv else -1)
                        elif key in kw:
                            ch = self.fmt_choices(kw[key], spec or '', ord(conv) if conv else -1)
                        if len(acc) * len(ch) > 30:
                            ch = ['\0']
                        acc = [a + x for a in acc for x in ch]
                out += acc
            except Exception:
                out.append('\0')
        return self.strs(out, t, c)

    def pat_affix(self, st, b, name, pa, t, c):
        opts = self.pyvals(st, pa[0]) if pa else None
        if opts is None or b.any or b.objs:
            return AV(consts=BOOL.consts, tags=t, ctl=c)
        res = set()
        for x in b.consts:
            s = x[1]
            for o in opts:
                os_ = o if isinstance(o, tuple) else (o,)
                if not isinstance(s, str):
                    return AV(consts=BOOL.consts, tags=t, ctl=c)
                if x[0] != 'Pat':
                    res.add(any(getattr(s, name)(q) for q in os_))
                    continue
                edge = s.split('\0')[-1 if name == 'endswith' else 0]
                v = set()
                for q in os_:
                    if getattr(edge, name)(q):
                        v.add(True)
                    elif len(edge) >= len(q) or (not (q.endswith(edge) if name == 'endswith' else q.startswith(edge))):
                        v.add(False)
                    else:
                        v |= {True, False}
                if v == {True} or (True in v and False not in v):
                    res.add(True)
                elif v == {False}:
                    res.add(False)
                elif len(os_) > 1 and True in v and any(getattr(edge, name)(q) for q in os_):
                    res.add(True)
                else:
                    res |= v
        return AV(consts=frozenset(C(x) for x in res), tags=t, ctl=c)

    def pat_map(self, st, b, name, pa, t, c):
        """Text transformations on partially known strings: applied to the known pieces."""
        opts = [self.pyvals(st, a) for a in pa]
        if b.any or b.objs or any(o is None or len(o) != 1 for o in opts):
            return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
        a = [o[0] for o in opts]
        out = []
        for x in b.consts:
            s = x[1]
            if not isinstance(s, str):
                if s is None:
                    continue
                return unknown(t, c)
            try:
                if '\0' not in s:
                    out.append(getattr(s, name)(*a))
                elif name in ('lower', 'upper'):
                    out.append(getattr(str(s), name)())
                elif name == 'replace':
                    # the unknown part may also contain the text
                    out.append('\0'.join(p.replace(*a) for p in s.split('\0')))
                else:
                    out.append('\0')
            except Exception:
                out.append('\0')
        return self.strs(out, t, c)

    def pat_split(self, st, b, name, pa, node, t, c):
        x = b.consts
        if len(x) != 1 or b.any or b.objs:
            return None
        s = next(iter(x))[1]
        if not isinstance(s, str):
            return None
        sep = self.pyvals(st, pa[0]) if pa else [None]
        if not sep or sep[0] is None:
            return None
        parts = s.split(sep[0])
        if len(parts) == 1:
            return None
        # the unknown piece may contain separators: only the ends are certain
        first, last = parts[0], parts[-1]
        el = self.strs(['\0'], t, c)
        if '\0' not in first and '\0' not in last and False:
            return None
        return None

    # ------------------------------------------------------------ opaque objects
    def opaque_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        me = obj(oid)
        t, c = I.dtags(st, [me] + pa + [v for v in kw.values()])
        ex = o.extra
        if I.tables is not None and I.tables.is_tab(o):
            r = I.tables.method(st, oid, o, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(ex, tuple) and ex and ex[0] == 'file':
            if name in ('write', 'writelines', 'truncate'):
                I.effect('fs-write', node, None, st)
                return NONE
            if name in ('read', 'readlines', 'readline'):
                return unknown(t, c)
            if name == '__enter__':
                return me
            return NONE
        if ex in ('rng', 'rng-unseeded'):
            if ex == 'rng-unseeded':
                t = t | frozenset(('!rng',))
            return I.mkarr(st, node, tags=t, ctl=c, k='rv')
        if name in FS_WRITE_METHODS:
            I.effect('fs-write', node, pa[0] if pa else kw.get('path_or_buf', kw.get('fname')), st)
            return NONE
        if name == 'write' and ex != 'configparser':
            I.effect('fs-write', node, pa[0] if pa else None, st)
            return NONE
        if name == 'write':
            return NONE
        if name in ('read', 'read_file') and ex == 'configparser':
            I.mutate(st, oid, o, '.' + name, node)
            return ANY
        inplace = kw.get('inplace')
        if name in OPAQUE_MUT and not (ex in ('df', 'groupby')) or (inplace is not None and inplace.single() == (True,)):
            I.mutate(st, oid, o, '.' + name, node)
            o = st.heap[oid]
            st.heap[oid] = o.repl(tags=o.tags | t, ctl=o.ctl | c)
            return unknown(t, c)
        if name == 'groupby':
            return I.new(st, node, 'opaque', k='gb', tags=t, ctl=c, extra='groupby')
        if name in ('values', 'keys', 'items') and ex == 'configparser':
            return I.new(st, node, 'list', k='cfg', elem=unknown(t, c))
        if name == 'copy':
            return I.new(st, node, 'opaque', k='oc', tags=t, ctl=c, extra=ex)
        for a in pa:
            if any(x.kind in ('func', 'bound') for _, x in I.objs(st, a)):
                self.callback(st, a, [ANY], node)
        if name in ('to_numpy', 'tolist', 'argmin', 'argmax', 'idxmin', 'idxmax'):
            return unknown(t, c) if name != 'to_numpy' else I.mkarr(st, node, tags=t, ctl=c, k='tn')
        for l in I.listeners:
            f = getattr(l, 'on_opaque', None)
            if f:
                f(I, st, oid, o, name, args, kw, node)
        return I.new(st, node, 'opaque', k=('om', name), tags=t, ctl=c, extra=ex if ex == 'df' else None)

    # ------------------------------------------------------------ attributes
    def obj_attr(self, st, oid, o, name, node):
        I = self.I
        k = o.kind
        if k == 'array':
            if name == 'shape':
                return self.shape_tuple(st, obj(oid), node)
            if name == 'T':
                if I.tables is not None:
                    r = I.tables.turned(st, o, node)
                    if r is not None:
                        return r
                return self.np_view(st, 'T', obj(oid), [], {}, node)
            if name in ('data', 'real', 'mask', 'flat', 'base', 'value'):
                if name in o.attrs:
                    return o.attrs[name]
                return obj(oid)
            if name == 'imag':
                t, c = I.deep(st, obj(oid))
                return I.mkarr(st, node, tags=t, ctl=c, k='im')
            if name in ('ndim',):
                s = self.shape_of(st, obj(oid))
                return const(len(s)) if s is not None else unknown()
            if name == 'size':
                s = self.shape_of(st, obj(oid))
                if s is not None and len(s) == 1 and s[0].single() is not None:
                    return s[0]
                return unknown()
            if name == 'dtype':
                return unknown() if not o.dtype else unknown()
            if name in o.attrs:
                return o.attrs[name]
            if name in ('names', 'columns', 'colnames'):
                return unknown()
            return I.new(st, node, 'bmeth', k=('bm', oid, name), items=(obj(oid),), extra=name)
        if k == 'hdu':
            if name == 'name':
                return self.hdu_name(st, o)
            if name in o.attrs:
                return bound(o.attrs[name])
            if name == 'shape':
                return I.getattr(st, o.attrs.get('data', ANY), 'shape', node)
            return I.new(st, node, 'bmeth', k=('bm', oid, name), items=(obj(oid),), extra=name)
        if k == 'slice':
            return o.items[{'start': 0, 'stop': 1, 'step': 2}.get(name, 0)]
        if k == 'exc':
            return ANY
        if k == 'opaque':
            if name in o.attrs:
                return bound(o.attrs[name])
            if I.tables is not None and I.tables.is_tab(o):
                r = I.tables.attr(st, oid, o, name, node)
                if r is not None:
                    return r
            if name == 'indices' and o.extra == 'groupby':
                t, c = I.deep(st, obj(oid))
                return I.new(st, node, 'dict', k='gbi', elem=I.mkarr(st, node, tags=t, ctl=c, shape=(ANY,), k='gbia'))
            if isinstance(o.extra, str) and o.extra.startswith('namespace:'):
                return ANY
            if I.opaque_attr is not None:
                v = I.opaque_attr(o, name)
                if v is not None:
                    return v
            return obj(self.derived_attr(st, node, oid, name))
        if k in ('list', 'tuple', 'dict', 'set', 'header', 'hdulist', 'iter'):
            if k == 'header' and name in ('cards', 'comments', 'history'):
                if name == 'comments':
                    return I.new(st, node, 'opaque', k='hcm')
                return self.hdr_method(st, oid, o, 'cards', [], {}, node)
            return I.new(st, node, 'bmeth', k=('bm', oid, name), items=(obj(oid),), extra=name)
        if k in ('bound', 'bmeth', 'staticmethod', 'classmethod', 'extsuper'):
            if k == 'bound' and name in ('__name__', '__func__', '__self__'):
                return I.getattr(st, o.items[0], '__name__', node) if name == '__name__' else o.items[name == '__self__']
            return ANY
        t, c = I.deep(st, obj(oid))
        return unknown(t, c)

    def derived_attr(self, st, node, oid, name):
        """Attribute of an opaque object: keeps the receiver so that method calls can be interpreted."""
        I = self.I
        o = st.heap[oid]
        t, c = I.deep(st, obj(oid))
        return I.alloc(st, node, Obj('opaque', tags=t, ctl=c, extra=o.extra if o.extra == 'df' else None), ('da', oid, name))
