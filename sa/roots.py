"""Abstract inputs: frames, datasets and calibration products built by interpreting the real constructors."""
import ast
import os
from .core import *
from .interp import Interp, Act, Dead


class FakeNode:
    """Stands for a call site of the analysis itself."""
    n = 10 ** 9

    def __init__(self, text='<analysis root>'):
        FakeNode.n += 1
        self._nid = FakeNode.n
        self._mod = None
        self.text = text
        self.lineno = 0


class Run:
    """One analysis run: a private copy of the interpreter state on top of the loaded modules."""

    def __init__(self, I):
        self.I = I
        self.st = State({}, Heap(I.base.heap), {})
        I.mutations = {}
        I.effects = {}
        I.raises = {}
        I.unbound = {}
        I.unknown_calls = {}
        I.called = {}
        I.bad_calls = None
        I.depth_hit = set()
        I.spent = {}
        I.fix = 0
        I.cut = set()
        I.listeners = []
        I.hooks = {}
        I.ext_hooks = {}
        I.opaque_attr = None
        I.tables = None
        I.pc = E0
        I.excstack = []
        I.trydepth = 0
        I.depth = 0
        I.fstack = []
        I.nsteps = 0
        I.max_steps = None
        I.deadline = None
        I.models.vfs = {}
        I.models.writes = []
        I.models.open_hook = None
        I.models.json_hook = None
        FakeNode.n = 10 ** 9
        I.act = Act(name='<root>', ctx=I.oid_for(('rootctx',)), mod='corgidrp', level='func', base=self.st.heap)
        I.record = True
        self.silent = 0

    # ------------------------------------------------------------ construction helpers
    def quiet(self):
        return _Quiet(self.I)

    def cls(self, name, mod='corgidrp.data'):
        m = self.I.base.heap[self.I.mods[mod]]
        v = m.attrs.get(name)
        return v

    def func(self, full):
        """AV of a repository function or class given its dotted name, or None."""
        mod = full
        rest = []
        while mod and mod not in self.I.mods:
            mod, _, last = mod.rpartition('.')
            rest.insert(0, last)
        if not mod:
            return None
        v = obj(self.I.mods[mod])
        for r in rest:
            o = self.I.one(self.st, v)
            if o is None:
                return None
            if o.kind == 'module':
                v = o.attrs.get(r)
            elif o.kind == 'class':
                v = self.I.class_lookup(self.st, next(iter(v.objs)), r)
                if not isinstance(v, AV):
                    return None
            else:
                return None
            if v is None:
                return None
        return v

    def header(self, tag, keys=None, open=True, absent=()):
        items = {}
        for k, v in (keys or {}).items():
            if not isinstance(v, AV):
                v = const(v)
            items[k] = (v.with_tags(frozenset(('%s.%s' % (tag, k),))), 'y')
        for k in absent:
            items[k] = (NOTHING, 'n')
        return self.I.models.hdr_new(self.st, FakeNode(), 'root', open=open, tags=frozenset((tag,)), items=items)

    def array(self, tag, shape, lin=None, dtype=None, vn=True):
        m = self.I.models
        sh = tuple(const(d) if isinstance(d, int) else (AV(consts=frozenset((('Sym', Sym(d)),))) if isinstance(d, str) else d)
                   for d in shape)
        from .values import _Key
        return self.I.mkarr(self.st, FakeNode(), tags=frozenset((tag,)), shape=sh, lin=frozenset((lin,)) if lin else E0,
                            dtype=dtype, vn=m.vn('in', _Key(tag)) if vn else None, k='root')

    def sym(self, name, tag=None):
        return AV(any=True, tags=frozenset((tag or name,)))

    def image(self, tag, cls='Image', mod='corgidrp.data', pri=None, ext=None, shape=('R', 'C'), err=True, dq=True,
              extra=None, absent_pri=(), absent_ext=(), err_layers=1, openhdr=True):
        I, st = self.I, self.st
        with self.quiet():
            d = self.array(tag + '.data', shape)
            ph = self.header(tag + '.pri', pri, absent=absent_pri, open=openhdr)
            ehk = dict(ext or {})
            eh = self.header(tag + '.ext', ehk, absent=absent_ext, open=openhdr)
            kw = {'pri_hdr': ph, 'ext_hdr': eh}
            if err:
                planes = tuple(self.array(tag + '.err' if i == 0 else tag + '.err%d' % i, shape) for i in range(err_layers))
                kw['err'] = I.mkarr(st, FakeNode(), items=planes, k='root')
                kw['err_hdr'] = self.header(tag + '.errh', open=False)
            if dq:
                kw['dq'] = self.array(tag + '.dq', shape, lin=tag + '.dq', dtype='uint16')
                kw['dq_hdr'] = self.header(tag + '.dqh', open=False)
            kw.update(extra or {})
            c = self.cls(cls, mod)
            r = I.call(st, c, [d], kw, FakeNode())
            for oid, o in I.objs(st, r):
                at = dict(o.attrs)
                at['filename'] = AV(consts=frozenset((C(Pat('\0.fits')),)), tags=frozenset((tag + '.filename',)))
                at['filedir'] = AV(consts=frozenset((C(Pat('\0')),)), tags=frozenset((tag + '.filedir',)))
                st.heap[oid] = o.repl(attrs=at)
        return r

    def dataset(self, frames):
        I, st = self.I, self.st
        with self.quiet():
            lst = I.mklist(st, FakeNode(), frames)
            return I.call(st, self.cls('Dataset'), [lst], {}, FakeNode())

    def mark(self, name, av, extra_skip=()):
        """Give every object reachable from `av` an origin path, so that in-place changes are reported."""
        I, st = self.I, self.st
        for oid, path in I.reach(st, [(name, av)]).items():
            o = st.heap.get(oid)
            if o.kind in ('class', 'func', 'module', 'ext', 'bound', 'property') or o.origin is not None:
                continue
            kw = dict(origin=path)
            if o.kind == 'header':
                kw['hist'] = (True, 0, E0)
            st.heap[oid] = o.repl(**kw)
        return av

    def call(self, f, args=(), kw=None, node=None):
        """Interpret a call; returns the value or None when no path returns normally."""
        I = self.I
        if isinstance(f, str):
            name = f
            f = self.func(f)
            if f is None:
                raise LookupError('repository function %s not found' % name)
        try:
            return I.call(self.st, f, list(args), dict(kw or {}), node or FakeNode())
        except Dead:
            return None

    def attr(self, av, name):
        try:
            return self.I.getattr(self.st, av, name, FakeNode())
        except Dead:
            return None


class _Quiet:
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.save = (self.I.record, self.I.listeners)
        self.I.record = False
        self.I.listeners = []

    def __exit__(self, *a):
        self.I.record, self.I.listeners = self.save
