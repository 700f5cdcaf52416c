"""FITS model: headers, HDUs, HDU lists and a virtual file system for written FITS files."""
from .core import *

#  keywords the library itself creates when an HDU is built or written
STRUCT = ('SIMPLE', 'XTENSION', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3', 'EXTEND', 'PCOUNT', 'GCOUNT', 'EXTNAME')


class Fits:
    def fits_call(self, st, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        base = name.split('.')[-1]
        if base == 'Header':
            src = pa[0] if pa else kw.get('cards')
            if src is not None and src.objs:
                o = I.one(st, src, 'header')
                if o is not None:
                    return self.hdr_copy(st, node, next(iter(src.objs)), 'H')
                return self.hdr_new(st, node, 'H', open=True, tags=I.dtags(st, [src])[0])
            return self.hdr_new(st, node, 'H')
        if name.endswith('Header.fromkeys') or '.Header.' in name:
            return self.hdr_new(st, node, 'H', open=True)
        if base in ('ImageHDU', 'PrimaryHDU', 'CompImageHDU', 'BinTableHDU', 'TableHDU'):
            return self.hdu_new(st, base, pa, kw, node)
        if base == 'HDUList':
            src = pa[0] if pa else kw.get('hdus')
            items = ()
            if src is not None:
                kind, its = self.iterate(st, src, node)
                if kind == 'known':
                    items = tuple(its)
                else:
                    return I.new(st, node, 'hdulist', k='hl', elem=its)
                o = I.one(st, src)
                if o is not None and o.kind == 'hdu':
                    items = (src,)
            return I.new(st, node, 'hdulist', k='hl', items=items)
        if base in ('open', 'fitsopen'):
            return self.fits_open(st, pa, kw, node)
        if base == 'getdata':
            hl = self.fits_open(st, pa[:1], {}, node)
            h = self.get_item(st, hl, pa[1] if len(pa) > 1 else kw.get('ext', const(0)), node)
            d = I.getattr(st, h, 'data', node)
            if not d.objs and not d.any:
                # an empty primary HDU: the data of the first extension are returned
                t, c = I.dtags(st, pa)
                d = I.mkarr(st, node, tags=t | frozenset(('!fs',)), ctl=c, k='gd')
            elif d.consts:
                d = d.repl(consts=E0)
            return d
        if base == 'getheader':
            hl = self.fits_open(st, pa[:1], {}, node)
            h = self.get_item(st, hl, pa[1] if len(pa) > 1 else kw.get('ext', const(0)), node)
            return I.getattr(st, h, 'header', node)
        if base in ('writeto', 'append', 'update', 'setval', 'delval'):
            I.effect('fs-write', node, pa[0] if pa else None, st)
            return NONE
        if base == 'table_to_hdu':
            t, c = I.dtags(st, pa)
            return I.new(st, node, 'hdu', k='thdu', extra='BinTableHDU', attrs={
                'data': I.mkarr(st, node, tags=t, ctl=c, k='tbl'), 'header': self.hdr_new(st, node, 'th')})
        return None

    def hdu_new(self, st, base, pa, kw, node):
        I = self.I
        data = kw.get('data', pa[0] if pa else NONE)
        hdr = kw.get('header', pa[1] if len(pa) > 1 else None)
        name = kw.get('name', pa[2] if len(pa) > 2 and base != 'PrimaryHDU' else None)
        if hdr is not None and hdr.objs:
            hs = NOTHING
            for oid, o in I.objs(st, hdr):
                if o.kind == 'header':
                    hs = jav(hs, self.hdr_copy(st, node, oid, 'hdu'))
                else:
                    hs = jav(hs, self.hdr_new(st, node, ('hduh', oid), open=True, tags=I.deep(st, obj(oid))[0]))
            h = hs
        else:
            h = self.hdr_new(st, node, 'hduh')
        # the constructor adds the structural keywords to its own header
        for oid, o in I.objs(st, h):
            items = dict(o.items)
            for k in ('BITPIX', 'NAXIS'):
                items[k] = (ANY, 'y')
            for k in ('NAXIS1', 'NAXIS2', 'NAXIS3'):
                if k not in items:
                    items[k] = (ANY, 'm')
            if base == 'PrimaryHDU':
                items['SIMPLE'] = (TRUE, 'y')
            else:
                items['XTENSION'] = (const('IMAGE'), 'y')
            st.heap[oid] = o.repl(items=items)
        r = I.new(st, node, 'hdu', k='hdu', extra=base, attrs={'data': data, 'header': h})
        if name is not None and name != NONE:
            self.hdu_setname(st, r, name)
        return r

    def hdu_setname(self, st, hdu, name):
        I = self.I
        nv = self.upper_av(st, name)
        for oid, o in I.objs(st, hdu):
            for hid, h in I.objs(st, o.attrs.get('header', NOTHING)):
                if h.kind == 'header':
                    st.heap[hid] = h.repl(items=dict(h.items, EXTNAME=(nv, 'y')))

    def upper_av(self, st, v):
        cs = frozenset(C(type(c[1])(c[1].upper())) if isinstance(c[1], str) else c for c in v.consts)
        return v.repl(consts=cs)

    def hdu_name(self, st, o):
        r = NOTHING
        for hid, h in self.I.objs(st, o.attrs.get('header', NOTHING)):
            if h.kind == 'header':
                v, p = self.hdr_read(h, 'EXTNAME')
                if p != 'n':
                    r = jav(r, v)
                if p != 'y':
                    r = jav(r, const('PRIMARY' if o.extra == 'PrimaryHDU' else ''))
        return r if not r.empty else ANY

    def hdu_copy(self, st, node, oid, k):
        I = self.I
        o = st.heap[oid]
        at = dict(o.attrs)
        d = at.get('data', NONE)
        if d.objs:
            nd = NOTHING
            for x, xo in I.objs(st, d):
                if xo.kind == 'array':
                    nd = jav(nd, self.copy_arr(st, node, obj(x), k=('hc', k, x)))
                else:
                    nd = jav(nd, obj(x))
            at['data'] = jav(nd, d.repl(objs=E0))
        h = at.get('header')
        if h is not None:
            nh = NOTHING
            for x, xo in I.objs(st, h):
                nh = jav(nh, self.hdr_copy(st, node, x, ('hc', k)) if xo.kind == 'header' else obj(x))
            at['header'] = nh
        return obj(I.alloc(st, node, o.repl(attrs=at, origin=None, summary=False, site=None), ('hcopy', k, oid)))

    def hdul_get(self, st, oid, o, k, node):
        I = self.I
        if I.one(st, k, 'slice') is not None:
            if o.items is not None:
                pv = [self.pyvals(st, i) for i in I.one(st, k, 'slice').items]
                if all(p is not None and len(p) == 1 for p in pv):
                    return I.new(st, node, 'hdulist', k=('hs', oid), items=tuple(o.items[slice(*[p[0] for p in pv])]))
            return I.new(st, node, 'hdulist', k=('hs', oid), elem=jelem(o))
        ks = k.concrete()
        if o.items is not None and ks is not None:
            r = NOTHING
            unknown_name = False
            for x in ks:
                if isinstance(x, int):
                    if -len(o.items) <= x < len(o.items):
                        r = jav(r, o.items[x])
                elif isinstance(x, str):
                    for it in o.items:
                        for hid, h in I.objs(st, it):
                            if h.kind != 'hdu':
                                continue
                            nm = self.hdu_name(st, h)
                            if nm.any or any(c[0] == 'Pat' for c in nm.consts):
                                unknown_name = True
                                r = jav(r, it)
                            elif C(x.upper()) in nm.consts:
                                r = jav(r, it)
            if r.empty:
                if o.open:
                    return jav(jelem(o), ANY)
                I.die(st, builtin_mro('KeyError' if any(isinstance(x, str) for x in ks) else 'IndexError'), node)
            if unknown_name or any(isinstance(x, str) for x in ks) and o.open:
                I.may_raise(st, node, builtin_mro('KeyError'))
            return r
        r = jelem(o)
        return r if not r.empty else ANY

    # ------------------------------------------------------------ virtual files
    def fits_open(self, st, pa, kw, node):
        I = self.I
        path = pa[0] if pa else kw.get('name', ANY)
        I.effect('fs-read', node, path, st)
        texts = self.texts(path)
        if path.objs or path.any:
            texts = ['\0']
        hits = []
        if '\0' not in ''.join(texts):
            for t in texts:
                f = self.vfs.get(t)
                if f is not None:
                    hits.append(f)
        if len(hits) == len(texts) and hits:
            hds = hits[0]
            its = []
            for i, h in enumerate(hds):
                its.append(self.hdu_copy(st, node, h, ('fo', i)))
            return I.new(st, node, 'hdulist', k='fo', items=tuple(its))
        f = self.open_hook
        if f is not None:
            r = f(self, st, path, node)
            if r is not None:
                return r
        tag = frozenset(('file:' + sorted(texts)[0].replace('\0', '*'),))
        pt = path.tags
        its = []
        for i, nm in enumerate(('PrimaryHDU', 'ImageHDU')):
            h = self.hdr_new(st, node, ('foh', i), open=True, tags=tag | pt)
            d = I.mkarr(st, node, tags=tag | pt, k=('fod', i)) if i else NONE
            its.append(I.new(st, node, 'hdu', k=('fo', i), extra=nm, attrs={'data': d, 'header': h}))
        return I.new(st, node, 'hdulist', k='fo', items=tuple(its), elem=its[-1], open=True)

    open_hook = None

    def hdul_write(self, st, oid, o, args, kw, node):
        I = self.I
        path = args[0] if args else kw.get('fileobj', ANY)
        I.effect('fs-write', node, path, st)
        ow = kw.get('overwrite')
        self.writes.append((path, ow, node, self.texts(path)))
        for l in I.listeners:
            f = getattr(l, 'on_writeto', None)
            if f:
                f(I, st, oid, o, path, ow, node)
        texts = self.texts(path)
        if len(texts) == 1 and '\0' not in texts[0] and o.items is not None:
            ids = []
            for i, h in enumerate(o.items):
                for hid, ho in I.objs(st, h):
                    if ho.kind == 'hdu':
                        c = self.hdu_copy(st, node, hid, ('wr', i))
                        ids.append(next(iter(c.objs)))
                        break
            self.vfs[texts[0]] = tuple(ids)
        return NONE

    # ------------------------------------------------------------ methods
    def hdul_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        if name == 'writeto':
            return self.hdul_write(st, oid, o, pa, kw, node)
        if name in ('append', 'insert', 'extend'):
            I.mutate(st, oid, o, '.' + name, node)
            o = st.heap[oid]
            if name == 'append' and pa:
                v = self.wrap_first(st, pa[0], o, node)
                if o.items is not None and not o.summary:
                    st.heap[oid] = o.repl(items=o.items + (v,))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), v))
            elif name == 'insert' and len(pa) > 1:
                s = pa[0].single()
                if o.items is not None and s is not None and not o.summary:
                    l = list(o.items)
                    l.insert(s[0], pa[1])
                    st.heap[oid] = o.repl(items=tuple(l))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), pa[1]))
            elif pa:
                kind, its = self.iterate(st, pa[0], node)
                if o.items is not None and kind == 'known' and not o.summary:
                    st.heap[oid] = o.repl(items=o.items + tuple(its))
                else:
                    st.heap[oid] = o.repl(items=None, elem=jav(jelem(o), jall(its) if kind == 'known' else its))
            return NONE
        if name == 'pop':
            I.mutate(st, oid, o, '.pop', node)
            o = st.heap[oid]
            s = pa[0].single() if pa else (-1,)
            if o.items is not None and s is not None and isinstance(s[0], int):
                if not o.items:
                    I.die(st, builtin_mro('IndexError'), node)
                l = list(o.items)
                try:
                    r = l.pop(s[0])
                except IndexError:
                    I.die(st, builtin_mro('IndexError'), node)
                if not o.summary:
                    st.heap[oid] = o.repl(items=tuple(l))
                return r
            if o.items is not None and s is not None and isinstance(s[0], str) and not o.open and not o.summary:
                # by name: the first HDU so called, when the names are known
                for i, it in enumerate(o.items):
                    nm = I.getattr(st, it, 'name', node).single()
                    if nm is None or not isinstance(nm[0], str):
                        break
                    if nm[0].upper() == s[0].upper():
                        st.heap[oid] = o.repl(items=o.items[:i] + o.items[i + 1:])
                        return it
                else:
                    I.die(st, builtin_mro('KeyError'), node)
            st.heap[oid] = o.repl(items=None, elem=jelem(o))
            return jelem(o)
        if name in ('copy', '__copy__'):
            # shallow: the HDUs are shared
            return I.new(st, node, 'hdulist', k='hlc', items=o.items, elem=o.elem, open=o.open)
        if name == '__deepcopy__':
            return self.deepcopy(st, obj(oid), node)
        if name in ('close', 'verify', 'flush', 'info', '__exit__'):
            if name == 'flush':
                I.effect('fs-write', node, None, st)
            return NONE
        if name == '__enter__':
            return obj(oid)
        if name in ('index_of', 'filename', '__contains__'):
            return unknown()
        if name in ('remove', 'clear', 'reverse', '__delitem__', '__setitem__'):
            I.mutate(st, oid, o, '.' + name, node)
            st.heap[oid] = o.repl(items=None, elem=jelem(o))
            return NONE
        return self.unknown_call(st, node, [obj(oid)] + pa, kw, '.' + name)

    def wrap_first(self, st, v, o, node):
        return v

    def hdu_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        if name == 'copy':
            return self.hdu_copy(st, node, oid, 'm')
        if name == 'writeto':
            I.effect('fs-write', node, pa[0] if pa else None, st)
            return NONE
        if name in ('add_checksum', 'add_datasum', 'update_header', 'scale'):
            I.mutate(st, oid, o, '.' + name, node)
            return NONE
        return self.unknown_call(st, node, [obj(oid)] + pa, kw, '.' + name)

    def hdr_method(self, st, oid, o, name, args, kw, node):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)]
        me = obj(oid)
        if name in ('copy', '__copy__', '__deepcopy__'):
            return self.hdr_copy(st, node, oid, 'm')
        if name == 'get':
            k = pa[0] if pa else kw.get('key', ANY)
            d = pa[1] if len(pa) > 1 else kw.get('default', NONE)
            r = NOTHING
            if k.any or k.objs or not all(is_concrete(x) for x in k.consts):
                return jav(d, unknown(o.escaped)).with_tags(*I.dtags(st, [k]))
            for x in k.consts:
                kk = self.hkey(x[1])
                v, p = self.hdr_read(o, kk) if kk else (ANY, 'm')
                if p != 'n':
                    r = jav(r, v)
                if p != 'y':
                    r = jav(r, d)
            return r
        if name == 'set':
            if pa:
                self.hdr_set(st, oid, o, pa[0], pa[1] if len(pa) > 1 else kw.get('value', NONE), node,
                             strong=True)
            return NONE
        if name in ('append', 'insert'):
            card = pa[-1] if name == 'insert' and len(pa) > 1 else (pa[0] if pa else ANY)
            co = I.one(st, card, 'tuple')
            if co is not None and co.items and len(co.items) > 1:
                self.hdr_set(st, oid, o, co.items[0], co.items[1], node)
            else:
                I.mutate(st, oid, o, '.' + name, node)
            return NONE
        if name == 'add_history':
            I.mutate(st, oid, o, 'key HISTORY', node)
            self.hdr_hist(st, oid, st.heap[oid], pa[0] if pa else ANY, True)
            return NONE
        if name in ('add_comment', 'add_blank'):
            I.mutate(st, oid, o, 'key COMMENT', node)
            return NONE
        if name in ('keys', '__iter__'):
            kind, its = self.iter1(st, oid, o, node)
            return obj(self.I.alloc(st, node, Obj('iter', extra=kind, attrs={'keysof': obj(oid)}, **(
                dict(items=tuple(its)) if kind == 'known' else dict(elem=its))), ('hk', oid)))
        if name == 'values':
            r = jall([v[0] for v in o.items.values()] or [NOTHING])
            return I.new(st, node, 'list', k='hv', elem=jav(r, unknown(o.escaped)))
        if name in ('items', 'cards'):
            r = jall([v[0] for v in o.items.values()] or [NOTHING])
            pair = I.new(st, node, 'tuple', k='hip', items=(unknown(o.escaped), jav(r, unknown(o.escaped))))
            return I.new(st, node, 'list', k='hi', elem=pair)
        if name in ('pop', 'remove', '__delitem__'):
            if pa:
                r = ANY
                k = pa[0].single()
                if k is not None and self.hkey(k[0]):
                    v, p = self.hdr_read(o, self.hkey(k[0]))
                    ign = kw.get('ignore_missing')
                    if p == 'n' and (len(pa) > 1 or ign is not None):
                        return pa[1] if len(pa) > 1 else NONE
                    r = v if p == 'y' else (jav(v, pa[1]) if len(pa) > 1 else v)
                    if p == 'm' and (len(pa) > 1 or ign is not None):
                        I.mutate(st, oid, o, 'key delete', node)
                        o = st.heap[oid]
                        st.heap[oid] = o.repl(items=dict(o.items, **{self.hkey(k[0]): (NOTHING, 'n')}))
                        return r
                self.hdr_del(st, oid, o, pa[0], node)
                return r
            return ANY
        if name in ('update', 'extend'):
            I.mutate(st, oid, o, '.' + name, node)
            for a in pa:
                for x, xo in I.objs(st, a):
                    o = st.heap[oid]
                    if xo.kind == 'header':
                        items = dict(o.items)
                        for k, (v, p) in xo.items.items():
                            if p == 'n':
                                continue
                            if p == 'y' and not o.summary:
                                items[k] = (v, 'y')
                            else:
                                cur = self.hdr_read(o, k)
                                items[k] = (jav(cur[0], v), 'y' if cur[1] == 'y' else 'm')
                        el = o.elem
                        if xo.open:
                            el = jav(el or NOTHING, unknown(xo.escaped))
                            items = {k: ((v, p) if k in xo.items and xo.items[k][1] == 'y' else
                                         (jav(v, unknown(hdr_key_tags(xo, k))), p)) for k, (v, p) in items.items()}
                        if xo.elem is not None:
                            el = jav(el or NOTHING, xo.elem)
                        st.heap[oid] = o.repl(items=items, elem=el)
                    elif xo.kind == 'dict':
                        items = dict(o.items)
                        for k, (v, p) in (xo.items or {}).items():
                            kk = self.hkey(k[1])
                            if kk and p != 'n':
                                items[kk] = (v, 'y')
                        st.heap[oid] = o.repl(items=items, elem=jav(o.elem, xo.elem) if o.elem and xo.elem else
                                              (o.elem or xo.elem))
                    elif xo.kind == 'list' and xo.items is not None:
                        for it in xo.items:
                            p = I.one(st, it, 'tuple')
                            if p is not None and p.items and len(p.items) > 1:
                                self.hdr_set(st, oid, st.heap[oid], p.items[0], p.items[1], node)
            return NONE
        if name == 'setdefault' and len(pa) > 1:
            k = pa[0].single()
            if k is not None and self.hkey(k[0]):
                v, p = self.hdr_read(o, self.hkey(k[0]))
                if p == 'y':
                    return v
                self.hdr_set(st, oid, o, pa[0], jav(v, pa[1]) if p == 'm' else pa[1], node)
                return jav(v, pa[1])
        if name in ('clear', 'strip', 'rename_keyword', 'add_card'):
            I.mutate(st, oid, o, '.' + name, node)
            if name == 'clear':
                st.heap[oid] = o.repl(items={}, open=False, hist=(False, 0, E0))
            return NONE
        if name == '__contains__' and pa:
            return AV(consts=frozenset(C(x) for x in self.hdr_has(st, o, pa[0])), tags=I.dtags(st, pa)[0])
        if name == '__getitem__' and pa:
            return self.hdr_get(st, oid, o, pa[0], node)
        if name == '__setitem__' and len(pa) == 2:
            self.hdr_set(st, oid, o, pa[0], pa[1], node)
            return NONE
        if name in ('tostring', 'count', 'index', 'totextfile'):
            if name == 'totextfile':
                I.effect('fs-write', node, pa[0] if pa else None, st)
            return unknown(o.escaped)
        return self.unknown_call(st, node, [me] + pa, kw, '.' + name)
