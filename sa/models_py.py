"""Builtins and standard-library model."""
import json as _json
import os as _os
import re as _re
from .core import *
from .values import FOLD_STR, pat_match

PURE_BUILTINS = {'int', 'float', 'str', 'bool', 'abs', 'round', 'min', 'max', 'sum', 'len', 'ord', 'chr', 'pow', 'divmod',
                 'complex', 'hex', 'oct', 'bin', 'repr', 'ascii', 'format', 'bytes', 'bytearray', 'id', 'callable',
                 'any', 'all', 'hash', 'memoryview'}
EXC = {n for n in dir(__builtins__) if False}


class Py:
    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        star = [a[1] for a in args if not isinstance(a, AV)]
        h = I.ext_hooks.get('builtins.' + name)
        if h is not None:
            r = h(I, st, node, args, kw)
            if r is not None:
                return r
        f = getattr(self, 'b_' + name, None)
        if f is not None and not star:
            r = f(st, pa, kw, node)
            if r is not None:
                return r
        mro = builtin_mro(name)
        if 'BaseException' in mro:
            return I.new(st, node, 'exc', k='exc', extra=mro, items=tuple(pa))
        t, c = I.dtags(st, pa + star + list(kw.values()))
        if name in ('int', 'float', 'str', 'bool', 'abs', 'round', 'ord', 'chr', 'pow', 'divmod', 'complex', 'repr') \
                and not kw and pa:
            import builtins as B
            r = self.fold(st, getattr(B, name), pa)
            if r is not None:
                return self.lift_all(st, node, r, t, c)
            if name == 'str' and len(pa) == 1 and not pa[0].objs and not pa[0].any:
                return self.strs(self.fmt_choices(pa[0]), t, c)
            if name in ('int', 'float'):
                I.may_raise(st, node, builtin_mro('ValueError'))
            vn = self.vn_of(st, pa[0]) if len(pa) == 1 else None
            if name in ('abs', 'round') and pa and self.is_arr(st, pa[0]):
                return self.elementwise(st, node, pa[:1], name)
            v = vn if name in ('float',) else (self.vn('b.' + name, vn) if vn is not None else None)
            if name == 'bool':
                p = self.truth(st, pa[0])
                return AV(consts=frozenset(C(x) for x in p), tags=t, ctl=c)
            if name == 'str':
                return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
            return AV(any=True, tags=t, ctl=c, vn=v)
        if name in ('int', 'float', 'str', 'bool') and not pa:
            return const({'int': 0, 'float': 0.0, 'str': '', 'bool': False}[name])
        if name in ('input',):
            I.effect('stdin', node, None, st)
            return unknown()
        if name in ('eval', 'exec', 'compile', '__import__'):
            I.effect('dynamic-code:' + name, node, None, st)
            return unknown(t, c)
        if name == 'hash':
            I.effect('py-hash', node, None, st)
            return unknown(t | frozenset(('!py-hash',)), c)
        if name == 'id':
            I.effect('py-id', node, None, st)
            return unknown(t | frozenset(('!py-hash',)), c)
        if name in PURE_BUILTINS:
            return unknown(t, c)
        return self.unknown_call(st, node, args, kw, name)

    def b_len(self, st, pa, kw, node):
        I = self.I
        v = pa[0]
        res = NOTHING
        for oid, o in I.objs(st, v):
            if o.kind in ('list', 'tuple', 'hdulist', 'array') and o.items is not None and not o.open:
                res = jav(res, const(len(o.items)))
            elif o.kind == 'set' and o.items is not None and not o.summary:
                res = jav(res, const(len(o.items)))
            elif o.kind == 'array':
                s = self.shape_of(st, obj(oid))
                res = jav(res, s[0].repl(tags=E0) if s else ANY)
            elif o.kind == 'dict' and o.elem is None and all(p == 'y' for _, p in (o.items or {}).values()):
                res = jav(res, const(len(o.items or {})))
            elif o.kind == 'inst' and o.cls is not None:
                cv = I.class_lookup(st, o.cls, '__len__')
                if isinstance(cv, AV):
                    res = jav(res, I.call(st, cv, [obj(oid)], {}, node))
                else:
                    res = jav(res, ANY)
            else:
                t, c = I.deep(st, obj(oid))
                res = jav(res, unknown(t, c))
        if v.consts:
            r = self.fold(st, len, [v.repl(objs=E0, any=False)])
            res = jav(res, self.lift_all(st, node, r, E0, E0) if r is not None else ANY)
        if v.any:
            res = jav(res, unknown(v.tags, v.ctl))
        return res if not res.empty else ANY

    def b_range(self, st, pa, kw, node):
        I = self.I
        r = self.fold(st, lambda *a: list(range(*a)), pa)
        if r is not None and len(r) == 1 and len(r[0]) <= 48:
            return I.new(st, node, 'tuple', k='rg', items=tuple(const(x) for x in r[0]))
        t, c = I.dtags(st, pa)
        return I.new(st, node, 'tuple', k='rg', elem=anyint(t, c))

    def iters(self, st, pa, node):
        out = [self.iterate(st, a, node) for a in pa]
        return out

    def b_enumerate(self, st, pa, kw, node):
        I = self.I
        kind, its = self.iterate(st, pa[0], node)
        s = (pa[1] if len(pa) > 1 else kw.get('start', const(0))).single()
        if kind == 'known':
            return I.new(st, node, 'list', k='en', items=tuple(
                I.new(st, node, 'tuple', k=('en', i), items=(const(i + s[0]) if s else anyint(), x))
                for i, x in enumerate(its)))
        return I.new(st, node, 'list', k='en', elem=I.new(st, node, 'tuple', k='en1', items=(anyint(), its)))

    def b_zip(self, st, pa, kw, node):
        I = self.I
        al = self.iters(st, pa, node)
        if al and all(k == 'known' for k, _ in al):
            n = min(len(i) for _, i in al)
            return I.new(st, node, 'list', k='zp', items=tuple(
                I.new(st, node, 'tuple', k=('zp', j), items=tuple(i[j] for _, i in al)) for j in range(n)))
        kn = [len(i) for k, i in al if k == 'known']
        el = tuple(jall(i) if k == 'known' else i for k, i in al)
        if kn and len(set(kn)) == 1:
            # the other iterables are assumed to be as long as the known one
            n = kn[0]
            return I.new(st, node, 'list', k='zp', items=tuple(
                I.new(st, node, 'tuple', k=('zp', j), items=tuple(i[j] if k == 'known' else i for k, i in al))
                for j in range(n)))
        return I.new(st, node, 'list', k='zp', elem=I.new(st, node, 'tuple', k='zp1', items=el))

    def b_reversed(self, st, pa, kw, node):
        kind, its = self.iterate(st, pa[0], node)
        if kind == 'known':
            return self.I.new(st, node, 'list', k='rv', items=tuple(reversed(its)))
        return self.I.new(st, node, 'list', k='rv', elem=its)

    def b_sorted(self, st, pa, kw, node):
        I = self.I
        kind, its = self.iterate(st, pa[0], node)
        if 'key' in kw:
            kv = self.callback(st, kw['key'], [jall(its) if kind == 'known' else its], node)
        if kind == 'known' and 'key' not in kw:
            pv = [i.single() for i in its]
            if all(p is not None for p in pv):
                try:
                    vals = sorted((p[0] for p in pv), reverse=bool(kw.get('reverse')) and
                                  kw['reverse'].single() == (True,))
                    t, c = I.dtags(st, its)
                    return I.new(st, node, 'list', k='so', items=tuple(const(v, t - UNORD) for v in vals))
                except TypeError:
                    pass
            n = len(its)
            el = jall(its)
            el = el.repl(tags=el.tags - UNORD)
            if n <= 1:
                return I.new(st, node, 'list', k='so', items=tuple(its))
            return I.new(st, node, 'list', k='so', items=tuple(el for _ in range(n)))
        el = jall(its) if kind == 'known' else its
        return I.new(st, node, 'list', k='so', elem=el.repl(tags=el.tags - UNORD))

    def b_list(self, st, pa, kw, node, kind_='list'):
        I = self.I
        if not pa:
            return I.new(st, node, kind_, k='ls', items=())
        kind, its = self.iterate(st, pa[0], node)
        if kind == 'known':
            return I.new(st, node, kind_, k='ls', items=tuple(its))
        return I.new(st, node, kind_, k='ls', elem=its)

    def b_tuple(self, st, pa, kw, node):
        return self.b_list(st, pa, kw, node, 'tuple')

    b_iter = b_list

    def b_next(self, st, pa, kw, node):
        kind, its = self.iterate(st, pa[0], node)
        r = jall(its) if kind == 'known' else its
        self.I.may_raise(st, node, builtin_mro('StopIteration'))
        return jav(r, pa[1]) if len(pa) > 1 else r

    def b_set(self, st, pa, kw, node):
        if not pa:
            return self.mkset(st, node, [], True)
        kind, its = self.iterate(st, pa[0], node)
        if kind == 'known':
            return self.mkset(st, node, its, True)
        return self.mkset(st, node, [its], False)

    b_frozenset = b_set

    def b_dict(self, st, pa, kw, node):
        I = self.I
        items, elem = {}, None
        for a in pa:
            o = I.one(st, a)
            if o is not None and o.kind == 'dict':
                items.update(o.items or {})
                elem = o.elem
            elif o is not None and o.kind == 'header':
                for k, v in o.items.items():
                    items[C(k)] = v
                elem = unknown(o.escaped) if o.open else o.elem
            elif o is not None and o.kind == 'inst' and o.cls is not None:
                t, c = I.deep(st, a)
                elem = unknown(t, c)
            else:
                kind, its = self.iterate(st, a, node)
                for x in (its if kind == 'known' else [its]):
                    p = I.one(st, x)
                    if p is not None and p.kind in ('tuple', 'list') and p.items and len(p.items) == 2:
                        ks = self.dict_keys(st, p.items[0])
                        if ks is not None and len(ks) == 1 and kind == 'known':
                            items[ks[0]] = (p.items[1], 'y')
                        else:
                            elem = p.items[1] if elem is None else jav(elem, p.items[1])
                    else:
                        t, c = I.dtags(st, [x])
                        elem = jav(elem or NOTHING, unknown(t, c))
        for k, v in kw.items():
            if k == '**':
                elem = v
            else:
                items[C(k)] = (bound(v), 'y')
        return I.new(st, node, 'dict', k='dc', items=items, elem=elem)

    def _minmax(self, name, st, pa, kw, node):
        I = self.I
        if 'key' in kw:
            self.callback(st, kw['key'], [ANY], node)
        if len(pa) == 1:
            kind, its = self.iterate(st, pa[0], node)
            t, c = I.dtags(st, [pa[0]])
            if kind == 'known':
                pv = [i.single() for i in its]
                if its and all(p is not None for p in pv):
                    try:
                        return const((min if name == 'min' else max)(p[0] for p in pv), t - UNORD)
                    except TypeError:
                        pass
            return unknown(t - UNORD, c)
        t, c = I.dtags(st, pa)
        r = self.fold(st, min if name == 'min' else max, pa)
        if r is not None:
            return self.lift_all(st, node, r, t, c)
        vns = [self.vn_of(st, a) for a in pa]
        return AV(any=True, tags=t, ctl=c, vn=self.vn('b.' + name, *vns) if all(v is not None for v in vns) else None)

    def b_min(self, st, pa, kw, node):
        return self._minmax('min', st, pa, kw, node)

    def b_max(self, st, pa, kw, node):
        return self._minmax('max', st, pa, kw, node)

    def b_sum(self, st, pa, kw, node):
        kind, its = self.iterate(st, pa[0], node)
        t, c = self.I.dtags(st, pa)
        if kind == 'known' and its and any(self.is_arr(st, x) for x in its):
            r = its[0]
            for i, x in enumerate(its[1:]):
                r = self.elementwise(st, node, [r, x], 'add', k=('sm', i))
            return r
        if kind == 'known':
            r = self.fold(st, lambda *a: sum(a), its)
            if r is not None:
                return self.lift_all(st, node, r, t, c)
        return unknown(t - UNORD, c)

    def _anyall(self, st, pa, node, isany):
        kind, its = self.iterate(st, pa[0], node)
        t, c = self.I.dtags(st, pa)
        res = {True, False}
        if kind == 'known':
            ps = [self.truth(st, x) for x in its]
            if isany:
                res = {True} if any(p == {True} for p in ps) else ({False} if all(p == {False} for p in ps) else res)
            else:
                res = {False} if any(p == {False} for p in ps) else ({True} if all(p == {True} for p in ps) else res)
        return AV(consts=frozenset(C(x) for x in res), tags=t - UNORD, ctl=c)

    def b_any(self, st, pa, kw, node):
        return self._anyall(st, pa, node, True)

    def b_all(self, st, pa, kw, node):
        return self._anyall(st, pa, node, False)

    def b_map(self, st, pa, kw, node):
        I = self.I
        al = self.iters(st, pa[1:], node)
        if al and all(k == 'known' for k, _ in al):
            n = min(len(i) for _, i in al)
            out = []
            si = I.act.iter
            for j in range(n):
                I.act.iter = si + (('map', j),)
                out.append(self.callback(st, pa[0], [i[j] for _, i in al], node))
            I.act.iter = si
            return I.new(st, node, 'list', k='mp', items=tuple(out))
        r = self.callback(st, pa[0], [jall(i) if k == 'known' else i for k, i in al], node)
        return I.new(st, node, 'list', k='mp', elem=r)

    def b_filter(self, st, pa, kw, node):
        I = self.I
        kind, its = self.iterate(st, pa[1], node)
        el = jall(its) if kind == 'known' else its
        self.callback(st, pa[0], [el], node)
        return I.new(st, node, 'list', k='fi', elem=el)

    def b_slice(self, st, pa, kw, node):
        p = list(pa)
        if len(p) == 1:
            p = [NONE, p[0], NONE]
        while len(p) < 3:
            p.append(NONE)
        return self.I.new(st, node, 'slice', k='slc', items=tuple(p))

    def b_isinstance(self, st, pa, kw, node):
        if len(pa) < 2:
            return BOOL
        return AV(consts=frozenset(C(x) for x in self.isinst(st, pa[0], pa[1])), tags=E0,
                  ctl=self.I.dtags(st, [])[1])

    def b_issubclass(self, st, pa, kw, node):
        import builtins as _b
        I = self.I
        if len(pa) < 2 or pa[0].any or pa[1].any:
            return BOOL
        out = set()
        for oid, o in I.objs(st, pa[0]):
            for xid, x in I.objs(st, pa[1]):
                if o.kind == 'class':
                    m = I.mro(st, oid)
                    if xid in m:
                        out.add(True)
                        continue
                    if x.kind == 'class':
                        out.add(False)
                        continue
                    names = set()
                    for k in m:
                        ko = st.heap.get(k)
                        if ko.kind == 'ext' and ko.extra.startswith('builtins.'):
                            names |= set(builtin_mro(ko.extra[9:]))
                    out |= {True} if x.kind == 'ext' and x.extra.split('.')[-1] in names else {True, False}
                elif o.kind == 'ext' and x.kind == 'ext' and o.extra.startswith('builtins.') \
                        and x.extra.startswith('builtins.') and isinstance(getattr(_b, o.extra[9:], None), type):
                    out.add(x.extra[9:] in builtin_mro(o.extra[9:]))
                else:
                    out |= {True, False}
        return AV(consts=frozenset(C(v) for v in out)) if out else BOOL

    def b_type(self, st, pa, kw, node):
        I = self.I
        if len(pa) != 1:
            return ANY
        r = NOTHING
        for oid, o in I.objs(st, pa[0]):
            if o.kind == 'inst' and o.cls is not None:
                r = jav(r, obj(o.cls))
            elif o.kind in ('list', 'tuple', 'dict', 'set'):
                r = jav(r, I.ext(st, 'builtins.' + o.kind))
            elif o.kind == 'array':
                r = jav(r, I.ext(st, 'numpy.ndarray'))
            elif o.kind == 'header':
                r = jav(r, I.ext(st, 'astropy.io.fits.Header'))
            else:
                r = jav(r, ANY)
        for c in pa[0].consts:
            if c[0] == 'Sym' and c[1] == '?num':
                r = jav(r, ANY)
                continue
            r = jav(r, I.ext(st, 'builtins.' + {'Pat': 'str', 'Sym': 'int'}.get(c[0], c[0])))
        if pa[0].any:
            r = jav(r, ANY)
        return r if not r.empty else ANY

    def b_getattr(self, st, pa, kw, node):
        I = self.I
        names = pa[1].concrete() if len(pa) > 1 else None
        if not names or not all(isinstance(n, str) for n in names):
            # unknown member of a module: resolve to nothing specific
            t, c = I.dtags(st, pa)
            return unknown(t, c)
        r = NOTHING
        ok = False
        for n in names:
            for oid, o in I.objs(st, pa[0]):
                try:
                    x = I.getattr1(st, oid, o, n, node, pa[0])
                except Exception as e:
                    if type(e).__name__ != 'Dead':
                        raise
                    x = None
                if x is None:
                    if len(pa) > 2:
                        r = jav(r, pa[2])
                    else:
                        I.may_raise(st, node, builtin_mro('AttributeError'))
                else:
                    ok = True
                    r = jav(r, x)
            if pa[0].any or pa[0].consts:
                r = jav(r, ANY)
        if r.empty:
            I.die(st, builtin_mro('AttributeError'), node)
        return r

    def b_setattr(self, st, pa, kw, node):
        I = self.I
        if len(pa) < 3:
            return NONE
        names = pa[1].concrete()
        if names and all(isinstance(n, str) for n in names):
            for n in names:
                I.setattr(st, pa[0], n, pa[2], node)
        else:
            for oid, o in I.objs(st, pa[0]):
                if o.kind == 'module':
                    I.mutate(st, oid, o.repl(origin='global:%s.*' % o.extra), 'setattr ?', node)
                else:
                    I.mutate(st, oid, o, 'setattr ?', node)
        return NONE

    def b_hasattr(self, st, pa, kw, node):
        I = self.I
        n = pa[1].single() if len(pa) > 1 else None
        if n is None:
            return BOOL
        res = set()
        for oid, o in I.objs(st, pa[0]):
            if o.kind in ('inst', 'module', 'class'):
                try:
                    if o.kind == 'inst' and n[0] in o.attrs:
                        res.add(True)
                        if o.attrs[n[0]].unb:
                            res.add(False)
                        continue
                    if o.kind == 'inst' and o.cls is not None:
                        cv = I.class_lookup(st, o.cls, n[0])
                        if cv == 'ext':
                            res |= {True, False}
                        else:
                            res.add(cv is not None)
                        continue
                    res.add(I.getattr1(st, oid, o, n[0], node, pa[0]) is not None)
                    continue
                except Exception:
                    pass
            elif o.kind == 'list' and n[0] in ('__len__', '__iter__'):
                res.add(True)
                continue
            res |= {True, False}
        if pa[0].any or not res:
            res |= {True, False}
        for c in pa[0].consts:
            res.add(hasattr(c[1], n[0]))
        return AV(consts=frozenset(C(x) for x in res))

    def b_delattr(self, st, pa, kw, node):
        for oid, o in self.I.objs(st, pa[0]):
            self.I.mutate(st, oid, o, 'delattr', node)
        return NONE

    def b_print(self, st, pa, kw, node):
        self.I.effect('stdout', node, None, st)
        f = kw.get('file')
        return NONE

    def b_open(self, st, pa, kw, node):
        I = self.I
        path = pa[0] if pa else kw.get('file', ANY)
        m = (pa[1] if len(pa) > 1 else kw.get('mode', const('r')))
        modes = m.concrete() or ['?']
        w = any(isinstance(x, str) and (set(x) & set('wax+?')) for x in modes)
        I.effect('fs-write' if w else 'fs-read', node, path, st)
        I.may_raise(st, node, builtin_mro('FileNotFoundError'))
        f = I.new(st, node, 'opaque', k='file', tags=path.tags, extra=('file', 'w' if w else 'r',
                                                                      tuple(self.texts(path))))
        return f

    def b_super(self, st, pa, kw, node):
        return ANY

    def b_callable(self, st, pa, kw, node):
        return BOOL

    def b_vars(self, st, pa, kw, node):
        t, c = self.I.dtags(st, pa)
        return unknown(t, c)

    b_dir = b_vars
    b_globals = b_vars

    def b_object(self, st, pa, kw, node):
        return self.I.new(st, node, 'opaque', k='object')


UNORD = frozenset(('!set-order', '!fs-order'))
