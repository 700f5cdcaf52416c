"""Path-joining abstract interpreter for the Python subset corgidrp uses.

Abstract values (core.AV) are propagated over the syntax tree of every function reached from a root;
calls are resolved through the abstract heap and analysed inline (context sensitive), branches whose
condition is not decided by constants are both analysed and joined, loops run to a fixpoint (loops over a
sequence of known length are unrolled).  Nothing from the repository is imported or executed.
"""
import ast
import time
import builtins
import re as _re
import sys
from .core import *
from . import models

sys.setrecursionlimit(20000)

MAX_UNROLL = 48
CUT_CALLS, CUT_STEPS = 2, 3000
MAX_DEPTH = 45


class Limit(RuntimeError):
    """The abstract interpretation of a root was abandoned (reported as not analysed)."""


RND = None
KLABELS = {'dc', 'sh', 'cp', 'dv', 'aug', 'vw', 'hc', 'hdu', 'ar', 'di', 'dip', 'dk', 'hs', 'it', 'rs', 'sc', 'sl', 'spl', 'xd',
           'cm', 'hk', 'hduh'}


def ksrc(k):
    """(shape of an allocation key without its source object, source object id or None)."""
    if type(k) is not tuple:
        return k, None
    if len(k) > 1 and type(k[0]) is str and type(k[1]) is int and k[0] in KLABELS:
        return (k[0],) + k[2:], k[1]
    for i, x in enumerate(k):
        if type(x) is tuple:
            l, s = ksrc(x)
            if s is not None:
                return k[:i] + (l,) + k[i + 1:], s
    return k, None


class Dead(Exception):
    """The current path cannot continue (a raise has been recorded)."""


class Act:
    __slots__ = ('func', 'name', 'ctx', 'iter', 'rets', 'loops', 'base', 'parent', 'caller_st', 'node', 'mod',
                 'globals', 'level', 'st', 'curexc', 'cls', 'yields', 'self_av', 'closure', 'defenv')

    def __init__(self, **kw):
        self.iter = ()
        self.rets = []
        self.loops = []
        self.globals = set()
        self.level = 'func'
        self.curexc = []
        self.cls = None
        self.yields = None
        self.closure = None
        self.defenv = None
        self.parent = None
        self.caller_st = None
        self.node = None
        self.func = None
        self.st = None
        self.self_av = None
        for k, v in kw.items():
            setattr(self, k, v)


class FuncInfo:
    __slots__ = ('node', 'mod', 'qual', 'cls', 'name', 'has_yield', 'params', 'locals')

    def __init__(self, node, mod, qual, cls):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.has_yield = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.has_yield = True
                stack.extend(ast.iter_child_nodes(n))
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]

    @property
    def fullname(self):
        return self.mod + '.' + self.qual


class ClassInfo:
    __slots__ = ('name', 'mod', 'node', 'bases')

    def __init__(self, name, mod, node, bases):
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases      # list of oids

    @property
    def fullname(self):
        return self.mod + '.' + self.name


class Event:
    """Something observed on a path: a mutation, an external effect, a raise..."""
    __slots__ = ('what', 'detail', 'node', 'chain', 'tags', 'av', 'pc')

    def __init__(self, what, detail, node, chain, av=None, pc=E0):
        self.what = what
        self.detail = detail
        self.node = node
        self.chain = chain
        self.av = av
        self.pc = pc


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.intern = {}
        self.rev = []
        self.ctxi = {}
        self.excstack = []
        self.trydepth = 0
        self.act = None
        self.pc = E0
        self.depth = 0
        self.fstack = []
        self.mutations = {}
        self.effects = {}
        self.raises = {}
        self.unbound = {}
        self.unknown_calls = {}
        self.called = {}
        self.hooks = {}          # full function name -> callable(interp, st, args, kw, node) -> AV or None
        self.ext_hooks = {}      # external dotted name -> callable(interp, st, node, args, kw) -> AV or None
        self.tables = None       # relational model of pandas tables (sa/tables.py)
        self.opaque_attr = None  # callable(object, name) -> AV or None
        self.listeners = []      # objects with optional methods on_call/on_mutate/...
        self.nsteps = 0
        self.max_steps = None
        self.deadline = None
        self.depth_hit = set()
        self.spent = {}
        self.fix = 0
        self.cut = set()
        self.mods = {}
        self.loading = set()
        self.base = State({}, Heap(), {})
        self.extids = {}
        self.funcs = {}
        self.models = models.Models(self)
        self.record = True
        self.assume_iter = True
        for mod in sorted(repo.trees):
            self.load_module(mod)
        self._assign_global_origins()

    # ------------------------------------------------------------ ids and heap helpers
    def oid_for(self, key):
        o = self.intern.get(key)
        if o is None:
            o = len(self.rev) + 1
            self.intern[key] = o
            self.rev.append(key)
        return o

    def alloc(self, st, node, new, k=0, fresh=False):
        nid = getattr(node, '_nid', 0) if not isinstance(node, (int, str)) else node
        a = self.act
        ctx, it = (a.ctx if a else 0), (a.iter if a else ())
        oid = None
        if type(k) is tuple and len(k) > 1:
            # a copy of a copy made at this very place: the objects of a loop are summarised
            lab, src = ksrc(k)
            for _ in range(12):
                if src is None or not 0 < src <= len(self.rev):
                    break
                q = self.rev[src - 1]
                if len(q) != 4:
                    break
                l2, s2 = ksrc(q[3])
                if s2 is not None and q[0] == ctx and q[2] == nid and q[1] == it and l2 == lab:
                    oid = src
                    break
                src = s2
        if oid is None:
            oid = self.oid_for((ctx, it, nid, k))
        if new.site is None:
            new.site = (nid, k if isinstance(k, (int, str)) else 0)
        old = st.heap.get(oid)
        if old is not None and not fresh:
            new = jobj(old, new).repl(summary=True)
        st.heap[oid] = new
        return oid

    def new(self, st, node, kind, k=0, tags=E0, **kw):
        if kind == 'opaque' and tags:
            kw['tags'] = tags
        return obj(self.alloc(st, node, Obj(kind, **kw), k), tags)

    def mklist(self, st, node, items, kind='list', k=0):
        items = tuple(bound(i) for i in items)
        return self.new(st, node, kind, k=k, items=items)

    def mkarr(self, st, node, tags=E0, ctl=E0, items=None, shape=None, dtype=None, lin=E0, vn=None, k=0,
              elem=None):
        return obj(self.alloc(st, node, Obj('array', tags=tags, ctl=ctl, items=items, shape=shape,
                                            dtype=dtype, lin=lin, vn=vn, elem=elem), k))

    def objs(self, st, av):
        return [(o, st.heap.get(o)) for o in sorted(av.objs) if st.heap.get(o) is not None]

    def one(self, st, av, kind=None):
        """The single object an AV denotes (no other possibility), or None."""
        if len(av.objs) == 1 and not av.consts and not av.any:
            o = st.heap.get(next(iter(av.objs)))
            if o is not None and (kind is None or o.kind == kind):
                return o
        return None

    def ext(self, st, name):
        oid = self.extids.get(name)
        if oid is None:
            oid = self.oid_for(('ext', name))
            self.extids[name] = oid
        if st.heap.get(oid) is None:
            h = st.heap
            while h.parent is not None:
                h = h.parent
            h.d[oid] = Obj('ext', extra=name)
        return obj(oid)

    # ------------------------------------------------------------ deep tags
    def deep(self, st, av, depth=5, seen=None):
        """(data tags, control tags) of everything reachable through containers and arrays."""
        if not av.objs:
            return av.tags, av.ctl
        return self._deep(st, (av,), depth)

    def _deep(self, st, avs, depth):
        T, K = set(), set()
        seen = set()
        get = st.heap.get
        level = list(avs)
        while level:
            nxt = []
            for av in level:
                if av.tags:
                    T |= av.tags
                if av.ctl:
                    K |= av.ctl
                for oid in av.objs:
                    if oid in seen:
                        continue
                    seen.add(oid)
                    o = get(oid)
                    if o is None:
                        continue
                    if o.tags:
                        T |= o.tags
                    if o.ctl:
                        K |= o.ctl
                    kd = o.kind
                    if kd == 'header' and o.escaped:
                        T |= o.escaped
                    if depth <= 0 or kd in ('class', 'module', 'ext', 'func'):
                        continue
                    if o.items is not None:
                        if isinstance(o.items, dict):
                            nxt.extend(v[0] for v in o.items.values())
                        else:
                            nxt.extend(o.items)
                    if o.elem is not None:
                        nxt.append(o.elem)
                    if kd == 'array' and isinstance(o.extra, tuple) and o.extra and o.extra[0] == 'view':
                        nxt.append(obj(o.extra[1]))
                    if kd in ('inst', 'hdu', 'bound', 'bmeth', 'slice', 'frame'):
                        nxt.extend(o.attrs.values())
            level = nxt
            depth -= 1
        return frozenset(T) if T else E0, frozenset(K) if K else E0

    def dtags(self, st, avs):
        if len(avs) == 1 and not avs[0].objs:
            return avs[0].tags, avs[0].ctl
        return self._deep(st, avs, 5)

    def reach(self, st, avs, into_classes=False):
        """Ordered dict oid -> access path of all objects reachable from the given (path, AV) list."""
        out = {}
        work = list(avs)
        i = 0
        while i < len(work):
            path, av = work[i]
            i += 1
            for oid in sorted(av.objs):
                if oid in out:
                    continue
                o = st.heap.get(oid)
                if o is None:
                    continue
                out[oid] = path
                if o.kind in ('module', 'ext') or (o.kind in ('class', 'func') and not into_classes):
                    continue
                for k in o.attrs:
                    work.append(('%s.%s' % (path, k), o.attrs[k]))
                if isinstance(o.items, dict):
                    for k, v in o.items.items():
                        work.append(('%s[%r]' % (path, k[1] if isinstance(k, tuple) else k), v[0]))
                elif o.items is not None:
                    for k, v in enumerate(o.items):
                        work.append(('%s[%d]' % (path, k), v))
                if o.elem is not None:
                    work.append(('%s[*]' % path, o.elem))
        return out

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        oid = self.mods.get(name)
        if oid is not None:
            return oid
        oid = self.oid_for(('module', name))
        self.mods[name] = oid
        st = self.base
        tree = self.repo.trees[name]
        import os
        fpath = os.path.join(self.repo.root, self.repo.files[name])
        st.heap[oid] = Obj('module', extra=name, attrs={'__name__': const(name), '__file__': const(fpath)})
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent in self.repo.trees:
                poid = self.load_module(parent)
                po = st.heap[poid]
                st.heap[poid] = po.repl(attrs=dict(po.attrs, **{name.rsplit('.', 1)[1]: obj(oid)}))
        save = (self.act, self.pc, self.record, self.excstack, self.trydepth)
        self.excstack, self.trydepth = [], 0
        self.record = False
        self.act = Act(name=name, ctx=self.oid_for(('modctx', name)), mod=name, level='module', base=st.heap)
        sub = State({}, st.heap, st.ev)
        try:
            self.block(tree.body, sub)
        except Dead:
            pass
        self.act, self.pc, self.record, self.excstack, self.trydepth = save
        return oid

    def _assign_global_origins(self):
        st = self.base
        for name, moid in sorted(self.mods.items()):
            m = st.heap[moid]
            for k, av in m.attrs.items():
                self._mark(st, av, 'global:%s.%s' % (name, k))

    def _mark(self, st, av, path):
        work = [(path, av)]
        while work:
            p, a = work.pop()
            for oid in a.objs:
                o = st.heap.get(oid)
                if o is None or o.origin is not None or o.kind in ('ext', 'module'):
                    continue
                if o.kind == 'func':
                    p2 = 'default:' + o.extra.fullname if o.extra else p
                elif o.kind == 'class':
                    p2 = 'class:' + o.extra.fullname if o.extra else p
                else:
                    p2 = p
                st.heap[oid] = o.repl(origin=p2)
                for k, v in o.attrs.items():
                    work.append(('%s.%s' % (p2, k), v))
                if isinstance(o.items, dict):
                    for k, v in o.items.items():
                        work.append(('%s[%s]' % (p2, k[1]), v[0]))
                elif o.items is not None:
                    for k, v in enumerate(o.items):
                        work.append(('%s[%d]' % (p2, k), v))
                if o.elem is not None:
                    work.append((p2 + '[*]', o.elem))

    # ------------------------------------------------------------ events
    def chain(self, node):
        out = []
        a = self.act
        n = node
        while a is not None:
            out.append('%s (%s)' % (self.repo.loc(n), a.name))
            n = a.node
            a = a.parent
            if n is None:
                break
        return tuple(out)

    def mutate(self, st, oid, o, how, node):
        """Report an in-place change of object `o`."""
        for l in self.listeners:
            f = getattr(l, 'on_mutate', None)
            if f:
                f(self, st, oid, o, how, node)
        if not self.record or o.origin is None:
            return
        key = (o.origin, how, getattr(node, '_nid', 0))
        if key not in self.mutations:
            self.mutations[key] = Event('mutate', (o.origin, how, o.kind), node, self.chain(node), pc=self.pc)

    def effect(self, name, node, av=None, st=None):
        for l in self.listeners:
            f = getattr(l, 'on_effect', None)
            if f:
                f(self, st, name, node, av)
        if not self.record:
            return
        key = (name, getattr(node, '_nid', 0), self.act.ctx if self.act else 0)
        if key not in self.effects:
            self.effects[key] = Event('effect', name, node, self.chain(node), av=av, pc=self.pc)
        else:
            e = self.effects[key]
            if av is not None and e.av is not None:
                e.av = jav(e.av, av)

    def rec_exc(self, st, mro, node, av=NONE):
        """Record that an exception may leave the current statement."""
        if self.trydepth > 0:
            top = self.excstack[-1]
            s, a = st, self.act
            while a is not top['act'] and a is not None:
                s = a.caller_st
                a = a.parent
            env = dict(s.env) if s is not None else {}
            d = {}
            h = st.heap
            chain = []
            while h is not None and h is not top['base']:
                chain.append(h.d)
                h = h.parent
            for x in reversed(chain):
                d.update(x)
            kid = State(env, Heap(top['base'], d), dict(st.ev))
            cur = top['coll'].get(mro)
            if cur is None:
                top['coll'][mro] = (kid, av, node)
            else:
                base = State({}, Heap(None, {}), {})
                old = cur[0]
                m = State({}, Heap(top['base'], {}), {})
                k1 = State(old.env, Heap(m.heap, old.heap.d), old.ev)
                k2 = State(kid.env, Heap(m.heap, kid.heap.d), kid.ev)
                merge_children(m, [k1, k2])
                top['coll'][mro] = (m, jav(cur[1], av), cur[2])
        else:
            if self.record:
                key = (mro, getattr(node, '_nid', 0))
                if key not in self.raises:
                    self.raises[key] = Event('raise', mro, node, self.chain(node), av=av, pc=self.pc)
            for l in self.listeners:
                f = getattr(l, 'on_uncaught', None)
                if f:
                    f(self, st, mro, node, av)

    def may_raise(self, st, node, what='?'):
        if self.trydepth > 0:
            self.rec_exc(st, (what,) if isinstance(what, str) else what, node)

    def die(self, st, mro, node, av=NONE):
        self.rec_exc(st, mro, node, av)
        raise Dead()

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            try:
                if not self.stmt(s, st):
                    return False
            except Dead:
                return False
        return True

    def stmt(self, n, st):
        self.nsteps += 1
        if self.max_steps is not None and self.nsteps > self.max_steps:
            raise Limit('analysis step limit exceeded')
        if self.deadline is not None and not self.nsteps % 16 and time.time() > self.deadline:
            raise Limit('analysis time limit exceeded')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return True
        r = m(n, st)
        return True if r is None else r

    def s_Expr(self, n, st):
        self.ev(n.value, st)

    def s_Pass(self, n, st):
        pass

    def s_Import(self, n, st):
        for a in n.names:
            root = a.name.split('.')[0]
            if a.name in self.repo.trees or root in self.repo.trees:
                if a.name in self.repo.trees:
                    self.load_module(a.name)
                target = a.name if a.asname else root
                if target in self.repo.trees:
                    v = obj(self.load_module(target))
                else:
                    v = self.ext(st, target)
            else:
                v = self.ext(st, a.name if a.asname else root)
            self.bind_name(a.asname or root, v, st, n)

    def s_ImportFrom(self, n, st):
        mod = n.module or ''
        if n.level:
            parts = self.act.mod.split('.')
            parts = parts[:len(parts) - n.level + (1 if self.repo.files.get(self.act.mod, '').endswith('__init__.py') else 0)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in n.names:
            if mod in self.repo.trees:
                moid = self.load_module(mod)
                if a.name == '*':
                    for k, v in list(self.base.heap[moid].attrs.items()):
                        if not k.startswith('_'):
                            self.bind_name(k, v, st, n)
                    continue
                v = st.heap[moid].attrs.get(a.name)
                if v is None:
                    if mod + '.' + a.name in self.repo.trees:
                        v = obj(self.load_module(mod + '.' + a.name))
                    else:
                        v = ANY
                self.bind_name(a.asname or a.name, v, st, n)
            elif a.name != '*':
                full = mod + '.' + a.name
                v = obj(self.load_module(full)) if full in self.repo.trees else self.ext(st, full)
                self.bind_name(a.asname or a.name, v, st, n)

    def s_Global(self, n, st):
        self.act.globals.update(n.names)

    def s_Nonlocal(self, n, st):
        pass

    def s_FunctionDef(self, n, st):
        v = self.make_func(n, st)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st)
            name = None
            o = self.one(st, dv)
            if o is not None and o.kind == 'ext':
                name = o.extra
            if name == 'builtins.property':
                v = self.new(st, n, 'property', k='prop', attrs={'fget': v})
            elif name in ('builtins.staticmethod', 'builtins.classmethod'):
                v = self.new(st, n, name.split('.')[1], k='sm', attrs={'f': v})
            elif o is not None and o.kind == 'propsetter':
                p = st.heap[next(iter(o.items[0].objs))]
                v = self.new(st, n, 'property', k='prop2', attrs=dict(p.attrs, fset=v))
            elif name is not None and name.split('.')[-1] in ('wraps', 'lru_cache', 'cache', 'jit', 'njit'):
                pass
            else:
                r = self.call(st, dv, [v], {}, d)
                if r.objs:
                    v = r
        self.bind_name(n.name, v, st, n)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, n, st):
        info = self.funcs.get(n._nid)
        if info is None:
            if self.act.level == 'module':
                qual = getattr(n, 'name', '<lambda>')
            elif self.act.level == 'class':
                qual = self.act.cls + '.' + getattr(n, 'name', '<lambda>')
            else:
                qual = self.act.name + '.<locals>.' + getattr(n, 'name', '<lambda>')
                if qual.startswith(self.act.mod + '.'):
                    qual = qual[len(self.act.mod) + 1:]
            info = FuncInfo(n, self.act.mod, qual, self.act.cls if self.act.level == 'class' else None)
            self.funcs[n._nid] = info
        a = n.args
        defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = self.ev(d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = self.ev(d, st)
        closure = None
        if self.act.level == 'func' or self.act.defenv is not None:
            closure = (self.act, dict(st.env), self.act.closure)
        oid = self.alloc(st, n, Obj('func', attrs=defaults, extra=info), 'fn')
        if closure is not None:
            self.closures[oid] = closure
        return obj(oid)

    closures = {}

    def s_ClassDef(self, n, st):
        bases = []
        for b in n.bases:
            bv = self.ev(b, st)
            bases.extend(sorted(bv.objs))
        act = Act(name=self.act.name + '.' + n.name, ctx=self.oid_for(('cls', self.act.ctx, n._nid)),
                  mod=self.act.mod, level='class', base=st.heap, cls=n.name, parent=self.act, caller_st=st,
                  node=n)
        sub = State({}, st.heap, st.ev)
        save = self.act
        self.act = act
        self.block(n.body, sub)
        self.act = save
        ns = {k: bound(v) for k, v in sub.env.items()}
        oid = self.oid_for(('class', self.act.mod, n._nid))
        st.heap[oid] = Obj('class', attrs=ns, extra=ClassInfo(n.name, self.act.mod, n, bases))
        self.bind_name(n.name, obj(oid), st, n)

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.add_ret(st, v)
        return False

    def add_ret(self, st, v):
        a = self.act
        v = v.with_tags(E0, self.pc)
        a.rets.append((self.snap(st, a.base), v))

    def snap(self, st, base):
        d = {}
        chain = []
        h = st.heap
        while h is not None and h is not base:
            chain.append(h.d)
            h = h.parent
        for x in reversed(chain):
            d.update(x)
        return State(dict(st.env), Heap(base, d), dict(st.ev))

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if self.act.level == 'module':
                    pass
                elif t.id in st.env:
                    st.env[t.id] = UNB
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.models.del_item(st, b, k, t)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for oid, o in self.objs(st, b):
                    self.mutate(st, oid, o, 'delattr ' + t.attr, t)
                    if t.attr in o.attrs:
                        at = dict(o.attrs)
                        del at[t.attr]
                        st.heap[oid] = o.repl(attrs=at)
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.Delete(targets=t.elts), st)

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, t)
            v = self.ev(n.value, st)
            self.assign(t, self.models.augop(st, cur, n.op, v, n), st, n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(st, b, t.attr, t)
            v = self.ev(n.value, st)
            r = self.models.augop(st, cur, n.op, v, n)
            self.setattr(st, b, t.attr, r, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            cur = self.models.get_item(st, b, k, t)
            v = self.ev(n.value, st)
            if self.models.is_view(st, b, k):
                r = self.models.augop(st, cur, n.op, v, n)
            else:
                r = self.models.binop(st, cur, n.op, v, n)
            self.models.set_item(st, b, k, r, n, aug=n.op)

    def assign(self, t, v, st, node):
        v = v.with_tags(E0, self.pc)
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(st, b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            self.models.set_item(st, b, k, v, t)
            if isinstance(t.value, ast.Name) and not b.objs and b.any:
                tg, ct = self.dtags(st, [v, k])
                cur = st.env.get(t.value.id)
                if cur is not None:
                    st.env[t.value.id] = cur.with_tags(tg, ct)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, elts, v, st, node):
        kind, items = self.models.iterate(st, v, node)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if kind == 'known':
            if not star and len(items) == len(elts):
                for e, i in zip(elts, items):
                    self.assign(e, i, st, node)
                return
            if star and len(items) >= len(elts) - 1:
                s = star[0]
                after = len(elts) - s - 1
                for e, i in zip(elts[:s], items[:s]):
                    self.assign(e, i, st, node)
                mid = items[s:len(items) - after]
                self.assign(elts[s], self.mklist(st, node, mid, k='star'), st, node)
                for e, i in zip(elts[s + 1:], items[len(items) - after:]):
                    self.assign(e, i, st, node)
                return
            items = jall(items) if items else ANY
        for e in elts:
            self.assign(e, items, st, node)

    def bind_name(self, name, v, st, node):
        a = self.act
        v = bound(v) if not v.empty else v
        if a.level == 'module' or name in a.globals:
            moid = self.mods[a.mod]
            o = st.heap[moid]
            if a.level != 'module':
                self.mutate(st, moid, o.repl(origin='global:%s.%s' % (a.mod, name)), 'rebind', node)
            st.heap[moid] = o.repl(attrs=dict(o.attrs, **{name: v}))
        else:
            st.env[name] = v

    def load_name(self, name, st, node):
        a = self.act
        v = st.env.get(name)
        if v is not None and name not in a.globals:
            if v.unb:
                if v.empty:
                    self.note_unbound(name, node, True)
                    self.die(st, builtin_mro('UnboundLocalError'), node)
                self.note_unbound(name, node, False)
                self.may_raise(st, node, builtin_mro('UnboundLocalError'))
                st.env[name] = v = bound(v)
            return v
        if a.level in ('func', 'class') and a.closure is not None:
            cl = a.closure
            while cl is not None:
                cact, cenv, nxt = cl
                env = cenv
                x = a
                while x is not None:
                    if x.parent is cact and x.caller_st is not None:
                        env = x.caller_st.env
                        break
                    x = x.parent
                if name in env:
                    return bound(env[name])
                cl = nxt
        if a.level == 'func' and a.func is not None and name in self.local_names(a.func) and name not in a.globals:
            self.note_unbound(name, node, True)
            self.die(st, builtin_mro('UnboundLocalError'), node)
        m = st.heap.get(self.mods[a.mod]) if a.mod in self.mods else None
        if m is not None and name in m.attrs:
            return m.attrs[name]
        if hasattr(builtins, name):
            return self.ext(st, 'builtins.' + name)
        if name == '__class__':
            return ANY
        return ANY

    _locals_cache = {}

    def local_names(self, info):
        r = self._locals_cache.get(id(info))
        if r is None:
            r = set()
            if not isinstance(info.node, ast.Lambda):
                stack = list(info.node.body)
                gl = set()
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        r.add(n.name)
                        continue
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        gl.update(n.names)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        r.add(n.id)
                    if isinstance(n, ast.ExceptHandler) and n.name:
                        r.add(n.name)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for al in n.names:
                            r.add((al.asname or al.name).split('.')[0])
                    stack.extend(ast.iter_child_nodes(n))
                r -= gl
            self._locals_cache[id(info)] = r
        return r

    def note_unbound(self, name, node, definite):
        if not self.record:
            return
        key = (name, getattr(node, '_nid', 0))
        if key not in self.unbound:
            self.unbound[key] = Event('unbound', (name, definite), node, self.chain(node))

    # -------- branching
    def s_If(self, n, st):
        return self.branch(st, n.test, lambda s: self.block(n.body, s), lambda s: self.block(n.orelse, s), n)

    def branch(self, st, test, fthen, felse, node):
        tv = self.ev(test, st)
        poss = self.models.truth(st, tv)
        if poss == {True}:
            ok = fthen(st)
            return ok
        if poss == {False}:
            return felse(st)
        save = self.pc
        t, c = self.dtags(st, [tv])
        self.pc = save | t | c
        kids = []
        try:
            a = st.fork()
            if self.refine(test, a, True):
                if fthen(a):
                    kids.append(a)
            b = st.fork()
            if self.refine(test, b, False):
                if felse(b):
                    kids.append(b)
        finally:
            self.pc = save
        if not kids:
            return False
        merge_children(st, kids)
        return True

    def refine(self, test, st, truth):
        """Narrow st by the outcome of test; False when the outcome is impossible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    if not self.refine(v, st, truth):
                        return False
            return True
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self.refine_place(test, st, lambda av: self.models.filter_truth(st, av, truth))
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == truth
                for x, y in ((l, r), (r, l)):
                    if isinstance(y, ast.Constant) and isinstance(x, (ast.Name, ast.Attribute)):
                        c = C(y.value)
                        strict = isinstance(op, (ast.Is, ast.IsNot)) or y.value is None

                        def f(av):
                            if eq:
                                if c in av.consts:
                                    return AV(consts=frozenset((c,)), tags=av.tags, ctl=av.ctl, vn=av.vn)
                                if strict and not av.any:
                                    return None
                                if av.any and y.value is None:
                                    return AV(consts=frozenset((c,)), tags=av.tags, ctl=av.ctl, vn=av.vn)
                                return av
                            cs = av.consts - {c}
                            return av.repl(consts=cs) if (cs or av.objs or av.any) else None
                        if not self.refine_place(x, st, f):
                            return False
            if isinstance(op, (ast.In, ast.NotIn)):
                present = isinstance(op, ast.In) == truth
                try:
                    kv = self.ev(l, st)
                    hv = self.ev(r, st)
                except Dead:
                    return True
                # `x in hdr.keys()` is the same test as `x in hdr`
                if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'keys' and not r.args:
                    hv = self.ev(r.func.value, st)
                k = kv.single()
                if k is not None and len(hv.objs) == 1:
                    oid = next(iter(hv.objs))
                    o = st.heap.get(oid)
                    if o is not None and o.kind in ('header', 'dict') and not o.summary:
                        return self.models.refine_key(st, oid, o, k[0], present)
            return True
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' \
                and len(test.args) == 2 and isinstance(test.args[0], (ast.Name, ast.Attribute)):
            try:
                cv = self.ev(test.args[1], st)
            except Dead:
                return True
            return self.refine_place(test.args[0], st, lambda av: self.models.filter_isinstance(st, av, cv, truth))
        return True

    def refine_place(self, place, st, f):
        if isinstance(place, ast.Name):
            v = st.env.get(place.id)
            if v is None or place.id in self.act.globals:
                return True
            nv = f(v)
            if nv is None:
                return False
            st.env[place.id] = nv
            return True
        if isinstance(place, ast.Attribute):
            try:
                b = self.ev(place.value, st)
            except Dead:
                return True
            if len(b.objs) == 1 and not b.any:
                oid = next(iter(b.objs))
                o = st.heap.get(oid)
                if o is not None and o.kind == 'inst' and place.attr in o.attrs and not o.summary:
                    nv = f(o.attrs[place.attr])
                    if nv is None:
                        return False
                    if nv is not o.attrs[place.attr]:
                        st.heap[oid] = o.repl(attrs=dict(o.attrs, **{place.attr: nv}))
        return True

    # -------- loops
    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        kind, items = self.models.iterate(st, it, n)
        t, c = self.dtags(st, [it]) if kind != 'known' else (E0, E0)
        return self.loop(st, n, kind, items, lambda v, s: self.assign(n.target, v, s, n), n.body, n.orelse, t | c)

    s_AsyncFor = s_For

    def loop(self, st, n, kind, items, bind, body, orelse, tags):
        act = self.act
        base = st.heap
        brk = []
        if kind == 'known':
            alive = True
            saveiter = act.iter
            for idx, item in enumerate(items):
                act.iter = saveiter + ((n._nid, idx),)
                cont = []
                kid = st.fork()
                act.loops.append((base, brk, cont))
                try:
                    try:
                        bind(item, kid)
                        ok = self.block(body, kid)
                    except Dead:
                        ok = False
                finally:
                    act.loops.pop()
                    act.iter = saveiter
                kids = ([kid] if ok else []) + cont
                if not kids:
                    alive = False
                    break
                # break states captured earlier have base as parent: they hold the diff relative to the
                # *unmodified* base, so make them independent before st moves on
                brk[:] = [self._freeze(b, base) for b in brk]
                merge_children(st, kids)
            outs = []
            if alive:
                k = st.fork()
                if self.block(orelse, k) if orelse else True:
                    outs.append(k)
            outs += [self._thaw(b, base) for b in brk]
            if not outs:
                return False
            merge_children(st, outs)
            return True
        # unknown number of iterations: fixpoint
        save = self.pc
        self.pc = save | tags
        self.fix += 1
        try:
            exits = []
            ok = False
            for rnd in range(12):
                if RND is not None: RND[(n.lineno,rnd)]=RND.get((n.lineno,rnd),0)+1
                brk = []
                cont = []
                kid = st.fork()
                act.loops.append((base, brk, cont))
                try:
                    try:
                        bind(items, kid)
                        ok = self.block(body, kid)
                    except Dead:
                        ok = False
                finally:
                    act.loops.pop()
                kids = ([kid] if ok else []) + cont
                if not kids:
                    break
                # 0-or-more invariant
                stay = st.fork()
                before_env = st.env
                before_ev = st.ev
                olds = {}
                for k2 in kids:
                    for o in k2.heap.d:
                        olds[o] = st.heap.get(o)
                keep = [State(dict(k.env), Heap(base, dict(k.heap.d)), dict(k.ev)) for k in kids]
                bkeep = list(brk)
                merge_children(st, [stay] + kids)
                if rnd >= 2:
                    # a counter that keeps growing: any integer
                    for nm, v in st.env.items():
                        w = before_env.get(nm)
                        if w is not None and v is not w and w.consts < v.consts and all(c[0] == 'int' for c in v.consts) \
                                and len(w.consts) > 1:
                            st.env[nm] = v.repl(consts=frozenset((('Sym', Sym('?int')),)))
                changed = st.env != before_env or st.ev != before_ev
                if not changed:
                    for o, v in olds.items():
                        nv = st.heap.get(o)
                        if v is None or (nv is not v and nv != v):
                            changed = True
                            break
                if not changed:
                    break
            outs = []
            if kids:
                if orelse:
                    k = State(dict(keep[0].env), keep[0].heap, dict(keep[0].ev))
                    m = st.fork()
                    merge_children_into(m, keep)
                    if self.block(orelse, m):
                        outs.append(m)
                else:
                    outs += keep
            outs += brk
            if not outs:
                return False
            merge_children(st, outs)
            return True
        finally:
            self.fix -= 1
            self.pc = save

    def _freeze(self, b, base):
        if isinstance(b, tuple):
            return b
        # record the full view of everything the base knows at this moment for keys that may change later
        return ('frozen', b.env, self.flat_from(b.heap), b.ev)

    def flat_from(self, h):
        return h.flat()

    def _thaw(self, b, base):
        if not isinstance(b, tuple):
            return b
        _, env, f, ev = b
        d = {o: v for o, v in f.items() if base.get(o) is not v}
        return State(env, Heap(base, d), ev)

    def s_While(self, n, st):
        act = self.act
        base = st.heap
        save = self.pc
        outs = []
        try:
            for rnd in range(12):
                brk, cont = [], []
                tv = self.ev(n.test, st)
                poss = self.models.truth(st, tv)
                t, c = self.dtags(st, [tv])
                self.pc = save | t | c
                kid = st.fork()
                ok = False
                if True in poss and self.refine(n.test, kid, True):
                    act.loops.append((base, brk, cont))
                    try:
                        try:
                            ok = self.block(n.body, kid)
                        except Dead:
                            ok = False
                    finally:
                        act.loops.pop()
                kids = ([kid] if ok else []) + cont
                stay = st.fork()
                be, bev = st.env, st.ev
                olds = {}
                for k2 in kids:
                    for o in k2.heap.d:
                        olds[o] = st.heap.get(o)
                if kids:
                    merge_children(st, [stay] + kids)
                changed = bool(kids) and (st.env != be or st.ev != bev)
                if not changed:
                    for o, v in olds.items():
                        nv = st.heap.get(o)
                        if v is None or (nv is not v and nv != v):
                            changed = True
                            break
                if not changed:
                    break
            tv = self.ev(n.test, st)
            poss = self.models.truth(st, tv)
            if False in poss:
                k = st.fork()
                if self.refine(n.test, k, False):
                    if not n.orelse or self.block(n.orelse, k):
                        outs.append(k)
            outs += brk
        finally:
            self.pc = save
        if not outs:
            return False
        merge_children(st, outs)
        return True

    def s_Break(self, n, st):
        base, brk, cont = self.act.loops[-1]
        brk.append(self.snap(st, base))
        return False

    def s_Continue(self, n, st):
        base, brk, cont = self.act.loops[-1]
        cont.append(self.snap(st, base))
        return False

    # -------- exceptions
    def s_Raise(self, n, st):
        if n.exc is None:
            if self.act.curexc:
                for mro in self.act.curexc[-1]:
                    self.rec_exc(st, mro, n)
            else:
                self.rec_exc(st, ('?',), n)
            return False
        v = self.ev(n.exc, st)
        mro = self.exc_mro(st, v)
        self.rec_exc(st, mro, n, v)
        return False

    def exc_mro(self, st, v):
        for oid, o in self.objs(st, v):
            if o.kind == 'exc':
                return o.extra
            if o.kind == 'ext':
                return builtin_mro(o.extra.split('.')[-1])
            if o.kind == 'class':
                return self.class_names(st, oid)
            if o.kind == 'inst':
                return self.class_names(st, o.cls)
        return ('?',)

    def class_names(self, st, oid):
        out = []
        for c in self.mro(st, oid):
            o = st.heap[c]
            if o.kind == 'class':
                out.append(o.extra.name)
            elif o.kind == 'ext':
                out.extend(builtin_mro(o.extra.split('.')[-1]))
        return tuple(out)

    def s_Assert(self, n, st):
        tv = self.ev(n.test, st)
        poss = self.models.truth(st, tv)
        if False in poss:
            k = st.fork()
            self.rec_exc(k, builtin_mro('AssertionError'), n)
        if True not in poss:
            return False
        return self.refine(n.test, st, True)

    def s_Try(self, n, st):
        base = st.heap
        entry = {'act': self.act, 'base': base, 'coll': {}}
        nret, nloop = len(self.act.rets), len(self.act.loops)
        self.excstack.append(entry)
        self.trydepth += 1
        kid = st.fork()
        try:
            ok = self.block(n.body, kid)
        finally:
            self.excstack.pop()
            self.trydepth -= 1
        outs = []
        if ok and n.orelse:
            ok = self.block(n.orelse, kid)
        if ok:
            outs.append(kid)
        pending = dict(entry['coll'])
        remaining = dict(pending)
        for h in n.handlers:
            names = None
            if h.type is not None:
                try:
                    tv = self.ev(h.type, st)
                except Dead:
                    continue
                names = self.handler_names(st, tv)
            kids = []
            mros = []
            for mro in list(remaining):
                s, av, node = remaining[mro]
                if names is None or any(x in mro for x in names) or 'Exception' in names and mro != ('?',) and \
                        'Exception' in mro:
                    kids.append((s, av))
                    mros.append(mro)
                    del remaining[mro]
                elif mro == ('?',):
                    kids.append((s, av))
                    mros.append(tuple(builtin_mro(sorted(names)[0])) if names else mro)
            if names is not None and ('Exception' in names or 'BaseException' in names):
                remaining.pop(('?',), None)
            if not kids:
                continue
            m = State(dict(st.env), Heap(base), dict(st.ev))
            ks = []
            for s, av in kids:
                ks.append(State(dict(s.env), Heap(m.heap, dict(s.heap.d)), dict(s.ev)))
            merge_children(m, ks)
            if h.name:
                m.env[h.name] = jall([av for s, av in kids]).repl(any=True)
            self.act.curexc.append(mros)
            save = self.pc
            try:
                if self.block(h.body, m):
                    outs.append(m)
            finally:
                self.act.curexc.pop()
                self.pc = save
        for mro, (s, av, node) in remaining.items():
            k = State(dict(s.env), Heap(base, dict(s.heap.d)), dict(s.ev))
            if n.finalbody:
                if not self.block(n.finalbody, k):
                    continue
            if mro == ('?',) and self.trydepth == 0:
                continue
            self.rec_exc(k, mro, node, av)
        if n.finalbody:
            # returns made inside the protected region also run the final block
            for i in range(nret, len(self.act.rets)):
                s, v = self.act.rets[i]
                if self.block(n.finalbody, s):
                    self.act.rets[i] = (s, v)
        if not outs:
            return False
        merge_children(st, outs)
        if n.finalbody:
            return self.block(n.finalbody, st)
        return True

    s_TryStar = s_Try

    def handler_names(self, st, tv):
        names = set()
        for oid, o in self.objs(st, tv):
            if o.kind == 'tuple' and o.items is not None:
                for i in o.items:
                    names |= self.handler_names(st, i)
            elif o.kind == 'ext':
                names.add(o.extra.split('.')[-1])
            elif o.kind == 'class':
                names.add(o.extra.name)
        return names

    def s_With(self, n, st):
        for it in n.items:
            v = self.ev(it.context_expr, st)
            r = self.models.enter(st, v, it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, n)
        return self.block(n.body, st)

    s_AsyncWith = s_With

    def s_Match(self, n, st):
        sv = self.ev(n.subject, st)
        kids = []
        for c in n.cases:
            k = st.fork()
            for x in ast.walk(c.pattern):
                nm = getattr(x, 'name', None) or getattr(x, 'rest', None)
                if isinstance(nm, str):
                    k.env[nm] = sv.repl(any=True)
            if c.guard is not None:
                self.ev(c.guard, k)
            if self.block(c.body, k):
                kids.append(k)
        last = n.cases[-1].pattern
        if not (isinstance(last, ast.MatchAs) and last.pattern is None):
            kids.append(st.fork())
        if not kids:
            return False
        merge_children(st, kids)
        return True

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return ANY
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.load_name(n.id, st, n)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def seq_items(self, elts, st):
        """Evaluate list displays with starred elements; returns (items or None, elem)."""
        items = []
        known = True
        for e in elts:
            if isinstance(e, ast.Starred):
                kind, its = self.models.iterate(st, self.ev(e.value, st), e)
                if kind == 'known':
                    items.extend(its)
                else:
                    known = False
                    items.append(its)
            else:
                items.append(self.ev(e, st))
        return items, known

    def e_List(self, n, st, kind='list'):
        items, known = self.seq_items(n.elts, st)
        items = [bound(i) for i in items]
        if known:
            return self.new(st, n, kind, items=tuple(items))
        return self.new(st, n, kind, elem=jall(items))

    def e_Tuple(self, n, st):
        return self.e_List(n, st, 'tuple')

    def e_Set(self, n, st):
        items, known = self.seq_items(n.elts, st)
        return self.models.mkset(st, n, items, known)

    def e_Dict(self, n, st):
        items = {}
        elem = None
        for k, v in zip(n.keys, n.values):
            vv = bound(self.ev(v, st))
            if k is None:
                o = self.one(st, vv, 'dict')
                if o is not None and o.items is not None:
                    items.update(o.items)
                    if o.elem is not None:
                        elem = o.elem if elem is None else jav(elem, o.elem)
                else:
                    elem = ANY
                continue
            kv = self.ev(k, st)
            keys = self.models.dict_keys(st, kv)
            if keys is not None and len(keys) == 1:
                items[keys[0]] = (vv, 'y')
            else:
                elem = vv if elem is None else jav(elem, vv)
        return self.new(st, n, 'dict', items=items, elem=elem)

    def e_BoolOp(self, n, st):
        """Short-circuit evaluation with refinement of the operands evaluated so far."""
        is_and = isinstance(n.op, ast.And)
        return self._boolop(n.values, is_and, st, n)

    def _boolop(self, values, is_and, st, n):
        v = self.ev(values[0], st)
        if len(values) == 1:
            return v
        poss = self.models.truth(st, v)
        if is_and and poss == {False} or (not is_and and poss == {True}):
            return v
        if is_and and poss == {True} or (not is_and and poss == {False}):
            self.refine(values[0], st, is_and)
            return self._boolop(values[1:], is_and, st, n).with_tags(v.tags, v.ctl)
        stop = st.fork()
        go = st.fork()
        res = []
        kids = []
        fv = self.models.filter_truth(st, v, not is_and)
        if fv is not None:
            self.refine(values[0], stop, not is_and)
            kids.append(stop)
            res.append(fv)
        try:
            if self.refine(values[0], go, is_and):
                r = self._boolop(values[1:], is_and, go, n)
                kids.append(go)
                res.append(r)
        except Dead:
            pass
        if not kids:
            raise Dead()
        merge_children(st, kids)
        out = jall(res)
        t, c = self.dtags(st, [v])
        return out.with_tags(t, c)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        return self.models.unop(st, n.op, v, n)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.models.binop(st, a, n.op, b, n)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, st)
            r = self.models.compare(st, left, op, right, n, i)
            if res is None:
                res = r
            else:
                p1, p2 = self.models.truth(st, res), self.models.truth(st, r)
                t, cc = self.dtags(st, [res, r])
                if p1 == {False} or p2 == {False}:
                    res = FALSE.with_tags(t, cc)
                elif p1 == {True} and p2 == {True}:
                    res = TRUE.with_tags(t, cc)
                else:
                    res = BOOL.with_tags(t, cc)
            left = right
        return res

    def e_IfExp(self, n, st):
        out = []

        def run(e):
            def f(s):
                try:
                    out.append(self.ev(e, s).with_tags(E0, self.pc))
                    return True
                except Dead:
                    return False
            return f
        if not self.branch(st, n.test, run(n.body), run(n.orelse), n):
            raise Dead()
        return jall(out)

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_JoinedStr(self, n, st):
        parts = []
        tags, ctl = E0, E0
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append([v.value])
            else:
                x = self.ev(v.value, st)
                t, c = self.dtags(st, [x])
                tags |= t
                ctl |= c
                spec = ''
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, st).single()
                    spec = s[0] if s is not None else None
                parts.append(self.models.fmt_choices(x, spec, v.conversion))
        return self.models.concat_strings(parts, tags, ctl)

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if self.act.yields is not None:
            self.act.yields.append(v)
        return ANY

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        kind, items = self.models.iterate(st, v, n)
        if self.act.yields is not None:
            self.act.yields.append(jall(items) if kind == 'known' else items)
        return ANY

    def e_Slice(self, n, st):
        parts = [self.ev(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return self.new(st, n, 'slice', items=tuple(bound(p) for p in parts))

    def ev_index(self, n, st):
        return self.ev(n, st)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev_index(n.slice, st)
        return self.models.get_item(st, b, k, n)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(st, b, n.attr, n)

    def comp(self, n, st, elt):
        """Evaluate a comprehension; returns (items, known)."""
        act = self.act
        saved = {}
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for nm in names:
            if nm in st.env:
                saved[nm] = st.env[nm]
        items, known = [], [True]
        lvl = act.level

        def gen(i, s):
            if i == len(n.generators):
                items.append(elt(s))
                return
            g = n.generators[i]
            it = self.ev(g.iter, s)
            kind, its = self.models.iterate(s, it, g.iter)
            if kind != 'known':
                known[0] = False
                save = self.pc
                t, c = self.dtags(s, [it])
                self.pc = save | t | c
                # two rounds so that objects allocated per iteration become summaries
                for _ in range(2):
                    self._local_assign(g.target, its, s, n)
                    ok = self._comp_ifs(g.ifs, s)
                    if ok is False:
                        break
                    gen(i + 1, s)
                self.pc = save
                return
            saveiter = act.iter
            for idx, item in enumerate(its):
                act.iter = saveiter + ((n._nid, i, idx),)
                try:
                    self._local_assign(g.target, item, s, n)
                    ok = self._comp_ifs(g.ifs, s)
                    if ok is False:
                        continue
                    if ok is None:
                        known[0] = False
                    gen(i + 1, s)
                finally:
                    act.iter = saveiter
        gen(0, st)
        for nm in names:
            if nm in saved:
                st.env[nm] = saved[nm]
            else:
                st.env.pop(nm, None)
        return [bound(i) for i in items], known[0]

    def _local_assign(self, target, v, st, n):
        lvl = self.act.level
        if lvl == 'module':
            # comprehension variables never become module globals
            self.act.level = 'compr'
        try:
            self.assign(target, v, st, n)
        finally:
            self.act.level = lvl

    def _comp_ifs(self, ifs, st):
        res = True
        for c in ifs:
            v = self.ev(c, st)
            p = self.models.truth(st, v)
            if p == {False}:
                return False
            if p != {True}:
                res = None
            if not self.refine(c, st, True):
                return False
        return res

    def e_ListComp(self, n, st):
        items, known = self.comp(n, st, lambda s: self.ev(n.elt, s).with_tags(E0, self.pc))
        if known:
            return self.new(st, n, 'list', items=tuple(items))
        return self.new(st, n, 'list', elem=jall(items))

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        items, known = self.comp(n, st, lambda s: self.ev(n.elt, s))
        return self.models.mkset(st, n, items, known)

    def e_DictComp(self, n, st):
        pairs = []

        def f(s):
            k = self.ev(n.key, s)
            v = self.ev(n.value, s).with_tags(E0, self.pc)
            pairs.append((k, v))
            return v
        items, known = self.comp(n, st, f)
        d, elem = {}, None
        for k, v in pairs:
            keys = self.models.dict_keys(st, k)
            if known and keys is not None and len(keys) == 1:
                d[keys[0]] = (bound(v), 'y')
            else:
                elem = v if elem is None else jav(elem, v)
        return self.new(st, n, 'dict', items=d, elem=elem)

    def e_Call(self, n, st):
        # super().x(...)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            fv = self.super_attr(st, f.attr, f)
            args, kw = self.args(n, st)
            return self.call(st, fv, args, kw, n)
        if isinstance(f, ast.Name) and f.id == 'locals':
            return ANY
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            args, kw = self.args(n, st)
            return self.call_attr(st, b, f.attr, args, kw, n)
        fv = self.ev(f, st)
        args, kw = self.args(n, st)
        return self.call(st, fv, args, kw, n)

    def args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                kind, items = self.models.iterate(st, v, a)
                if kind == 'known':
                    args.extend(items)
                else:
                    args.append(('*', items))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = self.one(st, v, 'dict')
                if o is not None and o.items is not None:
                    for kk, (vv, pres) in o.items.items():
                        if kk[0] == 'str' and pres != 'n':
                            kw[kk[1]] = vv if pres == 'y' else vv.repl(unb=True)
                    if o.elem is not None:
                        kw['**'] = o.elem
                else:
                    kw['**'] = AV(any=True).with_tags(*self.dtags(st, [v]))
            else:
                kw[k.arg] = v
        return args, kw

    def super_attr(self, st, name, node):
        a = self.act
        while a is not None and (a.func is None or a.func.cls is None):
            a = a.parent
        if a is None or a.self_av is None:
            return ANY
        self_av = a.self_av
        # class that defines the running method
        defcls = None
        for oid, o in self.objs(st, self_av):
            cls = o.cls if o.kind == 'inst' else oid
            mro = self.mro(st, cls)
            for c in mro:
                co = st.heap[c]
                if co.kind == 'class' and co.extra.name == a.func.cls and co.extra.mod == a.func.mod:
                    defcls = c
            if defcls is None:
                return ANY
            rest = mro[mro.index(defcls) + 1:]
            for c in rest:
                co = st.heap[c]
                if co.kind == 'ext':
                    return obj(self.alloc(st, node, Obj('extsuper', items=(self_av,), extra=co.extra + '.' + name), 'sup'))
                if name in co.attrs:
                    v = co.attrs[name]
                    return self.bind(st, v, self_av, node, cls)
            if name == '__init__':
                return self.ext(st, 'builtins.object.__init__')
        return ANY

    # ------------------------------------------------------------ attributes
    def mro(self, st, oid):
        out = []

        def rec(o):
            if o in out:
                return
            out.append(o)
            c = st.heap[o]
            if c is not None and c.kind == 'class':
                for b in c.extra.bases:
                    rec(b)
        rec(oid)
        return out

    def class_lookup(self, st, cls, name):
        for c in self.mro(st, cls):
            co = st.heap[c]
            if co.kind == 'class' and name in co.attrs:
                return co.attrs[name]
            if co.kind == 'ext':
                return 'ext'
        return None

    def bind(self, st, v, self_av, node, cls):
        """Bind a class attribute to an instance."""
        res = NOTHING
        for oid, o in self.objs(st, v):
            if o.kind == 'func':
                key = ('bound', oid, self_av.objs)
                b = self.alloc(st, node, Obj('bound', items=(obj(oid), self_av)), key)
                res = jav(res, obj(b))
            elif o.kind == 'property':
                r = self.call(st, o.attrs['fget'], [self_av], {}, node)
                res = jav(res, r)
            elif o.kind == 'staticmethod':
                res = jav(res, o.attrs['f'])
            elif o.kind == 'classmethod':
                b = self.alloc(st, node, Obj('bound', items=(o.attrs['f'], obj(cls))), ('cm', oid))
                res = jav(res, obj(b))
            else:
                res = jav(res, obj(oid))
        if v.consts or v.any:
            res = jav(res, v.repl(objs=E0))
        return res

    def getattr(self, st, b, name, node):
        res = NOTHING
        missing = 0
        total = 0
        for oid, o in self.objs(st, b):
            total += 1
            r = self.getattr1(st, oid, o, name, node, b)
            if r is None:
                missing += 1
                continue
            res = jav(res, r)
        if b.consts:
            cs = [c for c in b.consts if c[1] is not None]
            if cs:
                total += 1
                res = jav(res, self.models.const_attr(st, b.repl(consts=frozenset(cs), objs=E0), name, node))
            if len(cs) != len(b.consts):
                total += 1
                if total == 1 and not b.any:
                    self.die(st, builtin_mro('AttributeError'), node)
                self.may_raise(st, node, builtin_mro('AttributeError'))
        if b.any:
            total += 1
            res = jav(res, unknown(b.tags, b.ctl))
        if missing:
            if missing == total:
                self.die(st, builtin_mro('AttributeError'), node)
            self.may_raise(st, node, builtin_mro('AttributeError'))
        if res.empty:
            return unknown(b.tags, b.ctl)
        return res

    def getattr1(self, st, oid, o, name, node, b):
        k = o.kind
        if k == 'inst':
            v = o.attrs.get(name)
            if v is not None:
                if v.unb:
                    if v.empty:
                        v = None
                    else:
                        self.may_raise(st, node, builtin_mro('AttributeError'))
                        v = bound(v)
                if v is not None:
                    return v
            if name == '__class__':
                return obj(o.cls)
            if name == '__dict__':
                return ANY
            if o.cls is None:
                return unknown(o.tags, o.ctl)
            cv = self.class_lookup(st, o.cls, name)
            if cv == 'ext':
                return unknown(o.tags, o.ctl)
            if cv is None:
                return None
            return self.bind(st, cv, obj(oid), node, o.cls)
        if k == 'module':
            v = o.attrs.get(name)
            if v is not None:
                return v
            full = o.extra + '.' + name
            if full in self.repo.trees:
                return obj(self.load_module(full))
            return None
        if k == 'ext':
            return self.models.ext_attr(st, o, name, node)
        if k == 'class':
            if name == '__name__':
                return const(o.extra.name)
            if name == '__module__':
                return const(o.extra.mod)
            cv = self.class_lookup(st, oid, name)
            if cv is None:
                return None
            if cv == 'ext':
                return ANY
            out = NOTHING
            for x, xo in self.objs(st, cv):
                if xo.kind in ('staticmethod',):
                    out = jav(out, xo.attrs['f'])
                elif xo.kind == 'classmethod':
                    out = jav(out, obj(self.alloc(st, node, Obj('bound', items=(xo.attrs['f'], obj(oid))), ('cm', x))))
                else:
                    out = jav(out, obj(x))
            if cv.consts or cv.any:
                out = jav(out, cv.repl(objs=E0))
            return out
        if k == 'func':
            if name in ('__name__', '__qualname__'):
                return const(o.extra.name)
            if name == '__module__':
                return const(o.extra.mod)
            if name == '__defaults__':
                return ANY
            return o.attrs.get('.' + name, ANY)
        if k == 'property':
            if name == 'setter':
                return obj(self.alloc(st, node, Obj('propsetter', items=(obj(oid),)), 'ps'))
            return ANY
        return self.models.obj_attr(st, oid, o, name, node)

    def setattr(self, st, b, name, v, node):
        v0 = bound(v)
        v = v0.with_tags(E0, self.pc)
        strong = len(b.objs) == 1 and not b.any
        for oid, o in self.objs(st, b):
            if o.kind == 'inst' and o.cls is not None:
                cv = self.class_lookup(st, o.cls, name)
                if isinstance(cv, AV):
                    p = self.one(st, cv, 'property')
                    if p is not None:
                        if 'fset' in p.attrs:
                            self.call(st, p.attrs['fset'], [obj(oid), v], {}, node)
                            continue
                        self.may_raise(st, node, builtin_mro('AttributeError'))
            if o.kind == 'module':
                self.mutate(st, oid, o.repl(origin='global:%s.%s' % (o.extra, name)), 'rebind', node)
            elif o.kind == 'ext':
                self.effect('setattr-ext:' + o.extra + '.' + name, node, v, st)
                continue
            else:
                self.mutate(st, oid, o, 'attr %s' % name, node)
            key = name if o.kind != 'func' else '.' + name
            for l in self.listeners:
                f = getattr(l, 'on_setattr', None)
                if f:
                    f(self, st, oid, o, name, v, node)
            if o.kind == 'array' and name in ('shape', 'dtype'):
                continue
            if strong and not o.summary:
                nv = v
                if self.pc and o.attrs.get(key) is not None:
                    # the same value again: whether this is reached decides nothing
                    x = self.models.vn_of(st, v)
                    if x is not None and x == self.models.vn_of(st, o.attrs[key]):
                        nv = v.repl(ctl=v0.ctl)
            else:
                cur = o.attrs.get(key)
                nv = jav(cur, v) if cur is not None else v
            at = dict(o.attrs)
            at[key] = nv
            st.heap[oid] = o.repl(attrs=at)

    # ------------------------------------------------------------ calls
    def call_attr(self, st, b, name, args, kw, node):
        """b.name(args)"""
        targets = []
        for oid, o in self.objs(st, b):
            targets.append(('obj', oid, o))
        cs = frozenset(c for c in b.consts if c[1] is not None)
        if cs:
            targets.append(('const', b.repl(consts=cs, objs=E0, any=False), None))
        hasnone = len(cs) != len(b.consts)
        if b.any:
            targets.append(('any', b, None))
        if hasnone:
            if not targets:
                self.die(st, builtin_mro('AttributeError'), node)
            self.may_raise(st, node, builtin_mro('AttributeError'))
        if not targets:
            return ANY
        if name == 'copy' and len(targets) > 1 and not hasnone and all(k == 'obj' and o.kind == 'header' for k, _, o in targets):
            # one new header, whichever of them it is a copy of
            o = targets[0][2]
            for t in targets[1:]:
                o = jobj(o, t[2])
            return obj(self.alloc(st, node, o.repl(origin=None, summary=False, site=None),
                                  ('hcpj', tuple(sorted(x for _, x, _ in targets)))))

        def run(t, s):
            k, x, o = t
            if k == 'obj':
                if o.kind in ('inst', 'module', 'class', 'func', 'ext', 'property', 'extsuper'):
                    fv = self.getattr1(s, x, o, name, node, b)
                    if fv is None:
                        self.die(s, builtin_mro('AttributeError'), node)
                    if o.kind == 'inst' and fv.any and not fv.objs:
                        return self.models.unknown_call(s, node, [obj(x)] + [a for a in args], kw, '.' + name)
                    return self.call(s, fv, args, kw, node)
                return self.models.call_method(s, x, o, name, args, kw, node)
            if k == 'const':
                return self.models.const_method(s, x, name, args, kw, node)
            return self.models.unknown_call(s, node, [b.repl(objs=E0, consts=E0)] + list(args), kw, '.' + name)
        return self.multi(st, targets, run)

    def multi(self, st, targets, run):
        if len(targets) == 1:
            return run(targets[0], st)
        kids, res = [], []
        for t in targets:
            k = st.fork_heap()
            try:
                r = run(t, k)
            except Dead:
                continue
            kids.append(k)
            res.append(r)
        if not kids:
            raise Dead()
        merge_children(st, kids)
        return jall(res)

    def call(self, st, f, args, kw, node):
        targets = [('obj', oid, o) for oid, o in self.objs(st, f)]
        if f.any:
            targets.append(('any', f, None))
        if not targets:
            if f.consts:
                self.die(st, builtin_mro('TypeError'), node)
            return ANY

        def run(t, s):
            if t[0] == 'any':
                return self.models.unknown_call(s, node, [f.repl(objs=E0)] + list(args), kw, '<unknown>')
            return self.call_obj(s, t[1], t[2], args, kw, node)
        return self.multi(st, targets, run)

    def call_obj(self, st, oid, o, args, kw, node):
        k = o.kind
        if k == 'func':
            return self.call_func(st, oid, o, args, kw, node)
        if k == 'bound':
            return self.call(st, o.items[0], [o.items[1]] + list(args), kw, node)
        if k == 'class':
            return self.instantiate(st, oid, o, args, kw, node)
        if k == 'ext':
            return self.models.call_ext(st, o.extra, args, kw, node)
        if k == 'bmeth':
            return self.call_attr(st, o.items[0], o.extra, args, kw, node)
        if k == 'extsuper':
            return self.models.unknown_call(st, node, list(o.items) + list(args), kw, o.extra)
        if k == 'inst' and o.cls is not None:
            cv = self.class_lookup(st, o.cls, '__call__')
            if isinstance(cv, AV):
                return self.call(st, cv, [obj(oid)] + list(args), kw, node)
        return self.models.unknown_call(st, node, [obj(oid)] + list(args), kw, '<object>')

    def instantiate(self, st, oid, o, args, kw, node):
        full = o.extra.fullname
        h = self.hooks.get(full)
        if h is not None:
            r = h(self, st, args, kw, node)
            if r is not None:
                return r
        self.note_call(full, node)
        for l in self.listeners:
            f = getattr(l, 'on_call', None)
            if f:
                f(self, st, full, args, kw, node)
        names = self.class_names(st, oid)
        if 'BaseException' in names:
            return self.new(st, node, 'exc', k='exc', extra=names, items=tuple(a for a in args if isinstance(a, AV)))
        inst = self.alloc(st, node, Obj('inst', cls=oid), ('new', oid))
        init = self.class_lookup(st, oid, '__init__')
        if isinstance(init, AV):
            self.call(st, init, [obj(inst)] + list(args), kw, node)
        return obj(inst)

    def note_call(self, full, node):
        if self.record:
            self.called.setdefault(full, set()).add(getattr(node, '_nid', 0))

    def call_func(self, st, oid, fo, args, kw, node):
        info = fo.extra
        full = info.fullname
        for l in self.listeners:
            f = getattr(l, 'on_call', None)
            if f:
                f(self, st, full, args, kw, node)
        h = self.hooks.get(full)
        if h is not None:
            r = h(self, st, args, kw, node)
            if r is not None:
                return r
        self.note_call(full, node)
        if self.depth >= MAX_DEPTH or self.fstack.count(info) >= 3:
            self.depth_hit.add(full)
            return self.models.unknown_call(st, node, args, kw, full, quiet=True)
        nid = getattr(node, '_nid', 0)
        spent = self.spent.get((full, nid), (0, 0))
        if self.fix > 1 and spent[0] >= CUT_CALLS and spent[1] > CUT_STEPS:
            # interpreted several times at this call site already, at great cost (a measurement inside nested loops)
            self.cut.add(full)
            return self.models.unknown_call(st, node, args, kw, full, quiet=True)
        n0 = self.nsteps
        env = self.bind_args(st, fo, info, args, kw, node)
        ckey = (self.act.ctx if self.act else 0, self.act.iter if self.act else (), nid, info.node._nid)
        ctx = self.oid_for(('ctx',) + ckey)
        base = st.heap
        kid = State(env, Heap(base), dict(st.ev))
        act = Act(func=info, name=full, ctx=ctx, mod=info.mod, level='func', base=base, parent=self.act,
                  caller_st=st, node=node)
        act.closure = self.closures.get(oid)
        if info.cls is not None and info.params:
            act.self_av = env.get(info.params[0])
        if info.has_yield:
            act.yields = []
        save = self.act
        savepc = self.pc
        self.act = act
        self.depth += 1
        self.fstack.append(info)
        try:
            if isinstance(info.node, ast.Lambda):
                try:
                    v = self.ev(info.node.body, kid)
                    self.add_ret(kid, v)
                except Dead:
                    pass
            else:
                if self.block(info.node.body, kid):
                    self.add_ret(kid, NONE)
        finally:
            self.act = save
            self.depth -= 1
            self.fstack.pop()
            self.pc = savepc
            self.spent[(full, nid)] = (spent[0] + 1, spent[1] + self.nsteps - n0)
        for l in self.listeners:
            f = getattr(l, 'on_return', None)
            if f:
                f(self, st, full, act, node)
        if not act.rets:
            raise Dead()
        cenv = st.env
        kids = []
        for s, v in act.rets:
            s.env = cenv
            kids.append(s)
        if len(kids) == 1:
            st.heap.d.update(kids[0].heap.d)
            st.ev = kids[0].ev
        else:
            merge_children(st, kids)
            st.env = cenv
        if act.yields is not None:
            return self.new(st, node, 'list', k='gen', elem=jall(act.yields) if act.yields else ANY)
        return jall([v for s, v in act.rets])

    def bind_args(self, st, fo, info, args, kw, node):
        a = info.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        i = 0
        staritems = None
        extra = []
        for x in args:
            if isinstance(x, tuple):
                staritems = x[1] if staritems is None else jav(staritems, x[1])
                continue
            if staritems is not None:
                staritems = jav(staritems, x)
                continue
            if i < len(pos):
                env[pos[i]] = bound(x)
                i += 1
            else:
                extra.append(bound(x))
        if staritems is not None:
            for p in pos[i:]:
                if p not in kw:
                    d = fo.attrs.get(p)
                    env[p] = jav(bound(staritems), d) if d is not None else bound(staritems)
        if a.vararg:
            if staritems is not None:
                env[a.vararg.arg] = self.new(st, node, 'tuple', k='va', elem=jall([staritems] + extra))
            else:
                env[a.vararg.arg] = self.new(st, node, 'tuple', k='va', items=tuple(extra))
        elif extra:
            self.bad_call(info, node, 'too many positional arguments')
        allnames = pos + [p.arg for p in a.kwonlyargs]
        rest = {}
        star2 = kw.get('**')
        for k, v in kw.items():
            if k == '**':
                continue
            if k in allnames:
                if v.unb:
                    v = bound(v)
                    if k in fo.attrs:
                        v = jav(v, fo.attrs[k])
                env[k] = v
            else:
                rest[('str', k)] = (bound(v), 'y')
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, node, 'dict', k='kw', items=rest, elem=star2)
        elif rest:
            self.bad_call(info, node, 'unexpected keyword %s' % sorted(k[1] for k in rest))
        for p in allnames:
            if p not in env:
                d = fo.attrs.get(p)
                if d is not None:
                    env[p] = jav(d, star2) if star2 is not None else d
                else:
                    if star2 is None and node is not None:
                        self.bad_call(info, node, 'missing argument %s' % p)
                    env[p] = star2 if star2 is not None else ANY
        return env

    bad_calls = None

    def bad_call(self, info, node, what):
        if not self.record:
            return
        if self.bad_calls is None:
            self.bad_calls = {}
        key = (info.fullname, getattr(node, '_nid', 0), what)
        if key not in self.bad_calls:
            self.bad_calls[key] = Event('badcall', (info.fullname, what), node, self.chain(node))


def merge_children_into(m, states):
    """Merge sibling states (same base) into the fresh fork m of that base."""
    ks = []
    for s in states:
        ks.append(State(dict(s.env), Heap(m.heap, dict(s.heap.d)), dict(s.ev)))
    merge_children(m, ks)
