"""Abstract domain and repository loading for the corgidrp static analyser.

Nothing in this package imports or runs code from /repo: the sources are parsed with `ast`
and interpreted over the abstract domain defined here.
"""
import ast
import builtins
import os

CMAX = 14          # constants kept per abstract value before widening to "unknown"
E0 = frozenset()


class Repo:
    """Parsed source tree (only the package under analysis)."""

    def __init__(self, root, package='corgidrp'):
        self.root = root
        self.package = package
        self.trees = {}
        self.files = {}
        self.sources = {}
        pkg = os.path.join(root, package)
        for dirpath, dirs, files in os.walk(pkg):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                tree = ast.parse(src, path)
                self.trees[mod] = tree
                self.files[mod] = rel
                self.sources[mod] = src
        n = 0
        for mod in sorted(self.trees):
            for node in ast.walk(self.trees[mod]):
                n += 1
                node._nid = n
                node._mod = mod

    def loc(self, node):
        return '%s:%s' % (self.files.get(getattr(node, '_mod', ''), '?'), getattr(node, 'lineno', '?'))


# ---------------------------------------------------------------- constants
class Sym(str):
    """Symbolic integer: equal to itself, unknown otherwise ('?int': an arbitrary integer, '?num': an arbitrary number)."""
    __slots__ = ()


class Pat(str):
    """Partially known string; '\\0' stands for any text."""
    __slots__ = ()


def C(v):
    return (type(v).__name__, v)


def is_concrete(c):
    return c[0] not in ('Sym', 'Pat')


class AV:
    __slots__ = ('objs', 'consts', 'any', 'unb', 'tags', 'ctl', 'vn', '_h')

    def __init__(self, objs=E0, consts=E0, any=False, unb=False, tags=E0, ctl=E0, vn=None):
        self.objs = objs
        self.consts = consts
        self.any = any
        self.unb = unb
        self.tags = tags
        self.ctl = ctl
        self.vn = vn

    def key(self):
        return (self.objs, self.consts, self.any, self.unb, self.tags, self.ctl, self.vn)

    def __eq__(self, o):
        return self is o or (o.__class__ is AV and self.objs == o.objs and self.consts == o.consts and self.any == o.any
                             and self.unb == o.unb and self.tags == o.tags and self.ctl == o.ctl
                             and self.vn == o.vn)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.objs, self.consts, self.any, self.unb))

    def with_tags(self, tags, ctl=E0):
        if tags <= self.tags and ctl <= self.ctl:
            return self
        return AV(self.objs, self.consts, self.any, self.unb, self.tags | tags, self.ctl | ctl, self.vn)

    def repl(self, **kw):
        d = dict(objs=self.objs, consts=self.consts, any=self.any, unb=self.unb, tags=self.tags,
                 ctl=self.ctl, vn=self.vn)
        d.update(kw)
        return AV(**d)

    @property
    def empty(self):
        return not (self.objs or self.consts or self.any)

    def single(self):
        """The only possible constant, as a 1-tuple, or None."""
        if not self.objs and not self.any and not self.unb and len(self.consts) == 1:
            c = next(iter(self.consts))
            if is_concrete(c):
                return (c[1],)
        return None

    def concrete(self):
        """All possible constants as a list if fully known and concrete, else None."""
        if self.objs or self.any or not self.consts:
            return None
        out = []
        for c in self.consts:
            if not is_concrete(c):
                return None
            out.append(c[1])
        return sorted(out, key=repr)

    def __repr__(self):
        p = []
        if self.objs:
            p.append('o%s' % sorted(self.objs))
        if self.consts:
            p.append('c%s' % sorted((c[1] for c in self.consts), key=repr))
        if self.any:
            p.append('any')
        if self.unb:
            p.append('unb')
        if self.tags:
            p.append('t%s' % sorted(self.tags))
        if self.ctl:
            p.append('ctl%s' % sorted(self.ctl))
        return '<%s>' % ' '.join(p)


def const(v, tags=E0):
    return AV(consts=frozenset((C(v),)), tags=tags)


def consts(vs, tags=E0):
    s = frozenset(C(v) for v in vs)
    if len(s) > CMAX:
        return AV(any=True, tags=tags)
    return AV(consts=s, tags=tags)


def obj(oid, tags=E0):
    return AV(objs=frozenset((oid,)), tags=tags)


ANY = AV(any=True)
NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = AV(consts=frozenset((C(True), C(False))))
UNB = AV(unb=True)
NOTHING = AV()


def unknown(tags=E0, ctl=E0):
    if not tags and not ctl:
        return ANY
    return AV(any=True, tags=tags, ctl=ctl)


def jav(a, b):
    if a is b or a == b:
        return a
    cs = a.consts | b.consts
    an = a.any or b.any
    if len(cs) > CMAX:
        keep = frozenset(c for c in cs if c[1] is None)
        cs = keep
        an = True
    if a.empty and not a.unb:
        vn = b.vn
    elif b.empty and not b.unb:
        vn = a.vn
    else:
        vn = a.vn if a.vn == b.vn else None
    return AV(a.objs | b.objs, cs, an, a.unb or b.unb, a.tags | b.tags, a.ctl | b.ctl, vn)


def jall(avs):
    r = NOTHING
    for a in avs:
        r = jav(r, a)
    return r


def bound(a):
    """Drop the 'maybe unbound' marker."""
    return a.repl(unb=False) if a.unb else a


class Obj:
    """Abstract heap object (immutable record; updates replace it in the heap)."""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'elem', 'origin', 'summary', 'tags', 'ctl', 'lin',
                 'shape', 'dtype', 'vn', 'extra', 'open', 'hist', 'escaped', 'site')

    def __init__(self, kind, cls=None, attrs=None, items=None, elem=None, origin=None, summary=False,
                 tags=E0, ctl=E0, lin=None, shape=None, dtype=None, vn=None, extra=None, open=False, hist=None,
                 escaped=E0, site=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.elem = elem
        self.origin = origin
        self.summary = summary
        self.tags = tags
        self.ctl = ctl
        self.lin = lin
        self.shape = shape
        self.dtype = dtype
        self.vn = vn
        self.extra = extra
        self.open = open
        self.hist = hist
        self.escaped = escaped
        self.site = site

    def repl(self, **kw):
        n = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(n, s, kw[s] if s in kw else getattr(self, s))
        return n

    def __eq__(self, o):
        if self is o:
            return True
        for s in Obj.__slots__:
            if getattr(self, s) != getattr(o, s):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'Obj(%s%s%s)' % (self.kind, ' ' + str(self.origin) if self.origin else '',
                                ' ' + str(self.extra) if self.extra is not None else '')


def jelem(o):
    """Summary of all elements of a sequence-like object."""
    r = o.elem if o.elem is not None else NOTHING
    if o.items is not None and not isinstance(o.items, dict):
        for i in o.items:
            r = jav(r, i)
    elif isinstance(o.items, dict):
        for v in o.items.values():
            r = jav(r, v[0])
    return r


def _jattrs(a, b):
    if a is b:
        return a
    out = {}
    for k in a:
        if k in b:
            out[k] = a[k] if a[k] is b[k] else jav(a[k], b[k])
        else:
            out[k] = a[k].repl(unb=True)
    for k in b:
        if k not in a:
            out[k] = b[k].repl(unb=True)
    return out


def _jdict(a, b):
    """Join of key->(AV, must) maps."""
    if a is b:
        return a
    out = {}
    for k in a:
        if k in b:
            va, vb = a[k], b[k]
            if va is vb or va == vb:
                out[k] = va
            else:
                pa, pb = va[1], vb[1]
                if pa == 'n':
                    v = vb[0]
                elif pb == 'n':
                    v = va[0]
                else:
                    v = jav(va[0], vb[0])
                out[k] = (v, pa if pa == pb else 'm')
        else:
            out[k] = (a[k][0], 'n' if a[k][1] == 'n' else 'm')
    for k in b:
        if k not in a:
            out[k] = (b[k][0], 'n' if b[k][1] == 'n' else 'm')
    return out


def jhdr(a, b):
    """Join of header item maps where a missing key in an open header means 'unknown'."""
    ai, bi = a.items, b.items
    if ai is bi:
        return ai
    out = {}
    keys = list(ai)
    keys += [k for k in bi if k not in ai]
    for k in keys:
        va = ai.get(k)
        vb = bi.get(k)
        if va is None:
            va = (unknown(hdr_key_tags(a, k)), 'm') if a.open else (NOTHING, 'n')
        if vb is None:
            vb = (unknown(hdr_key_tags(b, k)), 'm') if b.open else (NOTHING, 'n')
        if va == vb:
            out[k] = va
            continue
        if va[1] == 'n':
            v = vb[0]
        elif vb[1] == 'n':
            v = va[0]
        else:
            v = jav(va[0], vb[0])
        out[k] = (v, va[1] if va[1] == vb[1] else 'm')
    return out


def hdr_key_tags(o, key):
    if not o.escaped:
        return E0
    return frozenset(t if t[0] == '!' or t.startswith('file:') else '%s.%s' % (t, key) for t in o.escaped)


def jhist(a, b):
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    # (base kept on all paths, min number of entries added, texts)
    return (a[0] and b[0], min(a[1], b[1]), a[2] | b[2])


def jobj(a, b):
    if a is b or a == b:
        return a
    if a.kind != b.kind:
        # joined kinds: degrade to an opaque array-like value holding everything
        return Obj('array', tags=a.tags | b.tags, ctl=a.ctl | b.ctl, summary=True,
                   elem=jav(jelem(a), jelem(b)), origin=a.origin or b.origin, lin=None)
    items, elem = None, None
    if a.kind == 'header':
        items = jhdr(a, b)
        elem = None
        if a.elem is not None or b.elem is not None:
            elem = jav(a.elem or NOTHING, b.elem or NOTHING)
    elif isinstance(a.items, dict) and isinstance(b.items, dict):
        items = _jdict(a.items, b.items)
        if a.elem is not None or b.elem is not None:
            elem = jav(a.elem or NOTHING, b.elem or NOTHING)
    elif a.items is not None and b.items is not None and not isinstance(a.items, dict) \
            and not isinstance(b.items, dict) and len(a.items) == len(b.items):
        items = a.items if a.items is b.items else tuple(jav(x, y) for x, y in zip(a.items, b.items))
        if a.elem is not None or b.elem is not None:
            elem = jav(a.elem or NOTHING, b.elem or NOTHING)
    else:
        items = None
        ea, eb = jelem(a), jelem(b)
        elem = jav(ea, eb)
        if elem.empty and a.kind in ('array',):
            elem = None
    if a.lin is None or b.lin is None:
        lin = None
    else:
        lin = a.lin & b.lin
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        shape = tuple(x if x == y else ANY for x, y in zip(a.shape, b.shape))
    else:
        shape = None
    return Obj(a.kind, cls=a.cls, attrs=_jattrs(a.attrs, b.attrs), items=items, elem=elem,
               origin=a.origin if a.origin == b.origin else (a.origin or b.origin),
               summary=a.summary or b.summary, tags=a.tags | b.tags, ctl=a.ctl | b.ctl, lin=lin, shape=shape,
               dtype=a.dtype if a.dtype == b.dtype else None,
               vn=a.vn if a.vn == b.vn else None,
               extra=a.extra if a.extra == b.extra else None, open=a.open or b.open,
               hist=jhist(a.hist, b.hist), escaped=a.escaped | b.escaped, site=a.site)


# ---------------------------------------------------------------- state
class Heap:
    __slots__ = ('parent', 'd')

    def __init__(self, parent=None, d=None):
        self.parent = parent
        self.d = d if d is not None else {}

    def get(self, k):
        h = self
        while h is not None:
            v = h.d.get(k)
            if v is not None:
                return v
            h = h.parent
        return None

    __getitem__ = get

    def __setitem__(self, k, v):
        self.d[k] = v

    def __contains__(self, k):
        return self.get(k) is not None

    def flat(self):
        chain = []
        h = self
        while h is not None:
            chain.append(h.d)
            h = h.parent
        out = dict(chain[-1])
        for d in reversed(chain[:-1]):
            out.update(d)
        return out

    def depth(self):
        n, h = 0, self
        while h is not None:
            n += 1
            h = h.parent
        return n


class State:
    __slots__ = ('env', 'heap', 'ev')

    def __init__(self, env, heap, ev):
        self.env = env
        self.heap = heap
        self.ev = ev

    def fork(self):
        return State(dict(self.env), Heap(self.heap), dict(self.ev))

    def fork_heap(self):
        """For one expression: local variables are shared, as it cannot bind any."""
        return State(self.env, Heap(self.heap), dict(self.ev))

    def snapshot(self):
        """An independent copy (safe to keep while the parent chain is mutated)."""
        return State(dict(self.env), Heap(None, self.heap.flat()), dict(self.ev))


def join_env(a, b):
    if a is b:
        return a
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            out[k] = v if v.unb else v.repl(unb=True)
        elif w is v:
            out[k] = v
        else:
            out[k] = jav(v, w)
    for k, w in b.items():
        if k not in a:
            out[k] = w if w.unb else w.repl(unb=True)
    return out


def join_ev(a, b):
    out = {}
    for k in set(a) | set(b):
        out[k] = a.get(k, frozenset(('init',))) | b.get(k, frozenset(('init',)))
    return out


def merge_children(parent, kids):
    """Join forked children of `parent` back into parent in place.  kids: non-empty list of States
    whose heap.parent is parent.heap (or independent snapshots)."""
    if len(kids) == 1:
        k = kids[0]
        if k.heap.parent is parent.heap:
            parent.heap.d.update(k.heap.d)
        else:
            f = k.heap.flat()
            parent.heap.d.update(f)
        parent.env = k.env
        parent.ev = k.ev
        return parent
    env = kids[0].env
    ev = kids[0].ev
    for k in kids[1:]:
        env = join_env(env, k.env)
        ev = join_ev(ev, k.ev)
    diffs = []
    keys = {}
    for k in kids:
        if k.heap.parent is parent.heap:
            d = k.heap.d
        else:
            d = k.heap.flat()
            pd = parent.heap.flat()
            d = {o: v for o, v in d.items() if pd.get(o) is not v}
        diffs.append(d)
        for o in d:
            keys[o] = None
    res = {}
    for o in keys:
        cur = None
        base = parent.heap.get(o)
        for d in diffs:
            v = d.get(o)
            if v is None:
                v = base
            if v is None:
                continue
            cur = v if cur is None else (cur if cur is v else jobj(cur, v))
        res[o] = cur
    parent.heap.d.update(res)
    parent.env = env
    parent.ev = ev
    return parent


def join_snapshots(states):
    """Join independent states into one."""
    if len(states) == 1:
        return states[0]
    env = states[0].env
    ev = states[0].ev
    h = states[0].heap.flat()
    for s in states[1:]:
        env = join_env(env, s.env)
        ev = join_ev(ev, s.ev)
        f = s.heap.flat()
        for o, v in f.items():
            w = h.get(o)
            if w is None:
                h[o] = v
            elif w is not v:
                h[o] = jobj(w, v)
    return State(env, Heap(None, h), ev)


def builtin_mro(name):
    c = getattr(builtins, name, None)
    if isinstance(c, type):
        return tuple(k.__name__ for k in c.__mro__)
    return (name,)


def anynum(tags=E0, ctl=E0, vn=None):
    """Some number (not an array), nothing else known."""
    return AV(consts=frozenset((('Sym', Sym('?num')),)), tags=tags, ctl=ctl, vn=vn)


def anyint(tags=E0, ctl=E0):
    """Some integer, nothing else known."""
    return AV(consts=frozenset((('Sym', Sym('?int')),)), tags=tags, ctl=ctl)
