"""Truth, refinement, constants, strings and operators of the abstract domain."""
import ast
import re as _re
import os as _os
from .core import *

FOLD_STR = {'replace', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'startswith',
            'endswith', 'find', 'rfind', 'index', 'rindex', 'join', 'format', 'count', 'capitalize', 'zfill', 'isdigit',
            'isnumeric', 'isalpha', 'partition', 'rpartition', 'encode', 'ljust', 'rjust', 'center', 'splitlines',
            'removeprefix', 'removesuffix', 'is_integer', 'bit_length', 'conjugate', 'isupper', 'islower', 'swapcase'}

OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.BitAnd: lambda a, b: a & b,
}
CMPS = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
    ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
    ast.Is: lambda a, b: a is b or (a == b and type(a) is type(b)),
    ast.IsNot: lambda a, b: not (a is b or (a == b and type(a) is type(b))),
    ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
}
VNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow', ast.BitOr: 'or',
         ast.BitAnd: 'and', ast.BitXor: 'xor', ast.FloorDiv: 'fdiv', ast.Mod: 'mod', ast.LShift: 'shl',
         ast.RShift: 'shr', ast.MatMult: 'matmul'}


class Values:
    # ------------------------------------------------------------ value numbers
    def vn(self, *key):
        """Hash-consed value number of an expression; None operands make it unknown."""
        for k in key[1:]:
            if k is None:
                return None
        if key[0] in ('add', 'mul', 'or', 'and', 'xor'):
            key = (key[0],) + tuple(sorted(key[1:]))
        v = self.vns.get(key)
        if v is None:
            v = len(self.vnrev)
            self.vns[key] = v
            self.vnrev.append(key)
        return v

    def vn_of(self, st, av):
        if av.vn is not None:
            return av.vn
        s = av.single()
        if s is not None:
            v = s[0]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
                v = int(v)
            return self.vn('const', _Key(repr(v)))
        if len(av.objs) == 1 and not av.any and not av.consts:
            o = st.heap.get(next(iter(av.objs)))
            if o is not None and o.kind == 'array':
                v = self.base_of(st, next(iter(av.objs)))
                if v is not None and o.extra is not None and isinstance(o.extra, tuple) and o.extra[0] == 'view':
                    b = st.heap[v]
                    return self.vn('view', b.vn, _Key(o.extra[2])) if b.vn is not None and o.extra[2] != '~' else None
                return o.vn
        return None

    # ------------------------------------------------------------ truth
    def truth(self, st, av):
        out = set()
        if av.any or av.empty:
            return {True, False}
        for c in av.consts:
            if c[0] == 'Sym':
                out.add(True)
                if c[1][:1] == '?':
                    out.add(False)
            elif c[0] == 'Pat':
                out.add(True)
                if c[1].replace('\0', '') == '':
                    out.add(False)
            else:
                try:
                    out.add(bool(c[1]))
                except Exception:
                    out |= {True, False}
        for oid in av.objs:
            out |= self.obj_truth(st, oid)
        return out or {True, False}

    def obj_truth(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            return {True, False}
        if o.kind in ('list', 'tuple', 'set', 'hdulist'):
            if o.items is not None and (o.kind != 'set' or not o.summary):
                return {bool(o.items)}
            return {True, False}
        if o.kind == 'dict':
            if o.items and any(v[1] == 'y' for v in o.items.values()):
                return {True}
            if not o.items and o.elem is None:
                return {False}
            return {True, False}
        if o.kind == 'array':
            return {True, False}
        if o.kind == 'inst' and o.cls is not None:
            for m in ('__bool__', '__len__'):
                cv = self.I.class_lookup(st, o.cls, m)
                if isinstance(cv, AV):
                    try:
                        r = self.I.call(st, cv, [obj(oid)], {}, 0)
                    except Exception:
                        return {True, False}
                    return self.truth(st, r)
                if cv == 'ext':
                    return {True, False}
            return {True}
        if o.kind == 'ext':
            return {True}
        if o.kind in ('opaque',):
            return {True, False}
        return {True}

    def filter_truth(self, st, av, truth):
        """The part of av with the given truth value, or None when empty."""
        cs = frozenset(c for c in av.consts if truth in self.truth(st, AV(consts=frozenset((c,)))))
        os_ = frozenset(o for o in av.objs if truth in self.obj_truth(st, o))
        if not cs and not os_ and not av.any:
            return None
        if cs == av.consts and os_ == av.objs:
            return av
        return av.repl(consts=cs, objs=os_)

    def filter_isinstance(self, st, av, cv, truth):
        cs = frozenset(c for c in av.consts if truth in self.isinst(st, AV(consts=frozenset((c,))), cv))
        os_ = frozenset(o for o in av.objs if truth in self.isinst(st, obj(o), cv))
        if not cs and not os_ and not av.any:
            return None
        return av.repl(consts=cs, objs=os_)

    PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'complex': complex, 'NoneType': type(None),
           'bytes': bytes}
    KINDT = {'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'slice': 'slice'}

    def isinst(self, st, av, cv):
        """Possible outcomes of isinstance(av, cv)."""
        classes = []
        for oid in cv.objs:
            o = st.heap.get(oid)
            if o is not None and o.kind == 'tuple' and o.items is not None:
                for i in o.items:
                    classes.extend((x, st.heap.get(x)) for x in i.objs)
                    if i.any:
                        classes.append((None, None))
            else:
                classes.append((oid, o))
        if cv.any:
            classes.append((None, None))
        out = set()
        if av.any:
            out |= {True, False}
        for c in av.consts:
            res = False
            for x, o in classes:
                if o is None:
                    res = None
                    break
                if o.kind == 'ext':
                    nm = o.extra.split('.')[-1]
                    tn = 'str' if c[0] == 'Pat' else ('int' if c[0] == 'Sym' else c[0])
                    if c[1] == '?num' and (nm in self.PYT or nm in ('Integral', 'integer', 'floating')) and nm not in ('str', 'list', 'dict', 'tuple', 'set'):
                        res = None
                        break
                    t = self.PYT.get(nm)
                    if o.extra.startswith('builtins.') and t is not None and tn in self.PYT:
                        if issubclass(self.PYT[tn], t):
                            res = True
                            break
                    elif nm in ('Number', 'Real', 'Integral', 'number', 'integer', 'floating'):
                        if tn in ('int', 'float', 'bool') and o.extra.startswith('numbers.'):
                            res = nm != 'Integral' or tn in ('int', 'bool')
                            if res:
                                break
            if res is None:
                out |= {True, False}
            else:
                out.add(res)
        for oid in av.objs:
            o = st.heap.get(oid)
            if o is None:
                out |= {True, False}
                continue
            res = False
            for x, c in classes:
                r = self._isinst1(st, oid, o, x, c)
                if r is True:
                    res = True
                    break
                if r is None:
                    res = None
            if res is None:
                out |= {True, False}
            else:
                out.add(res)
        return out or {True, False}

    def _isinst1(self, st, oid, o, x, c):
        if c is None:
            return None
        if o.kind == 'inst':
            if o.cls is None:
                return None
            mro = self.I.mro(st, o.cls)
            if x in mro:
                return True
            if c.kind == 'ext' and c.extra.split('.')[-1] == 'object':
                return True
            return False if c.kind == 'class' or c.extra.startswith('builtins.') or \
                c.extra in ('numpy.ndarray', 'astropy.io.fits.Header') else \
                (None if any(st.heap[m].kind == 'ext' for m in mro) else False)
        if c.kind == 'class':
            return False if o.kind != 'opaque' else None
        if c.kind != 'ext':
            return None
        nm = c.extra.split('.')[-1]
        if o.kind in self.KINDT:
            if c.extra.startswith('builtins.'):
                return nm == o.kind or nm == 'object'
            if nm in ('Sequence', 'Iterable', 'Mapping', 'Collection'):
                return None
            return False
        if o.kind == 'array':
            if c.extra in ('numpy.ndarray',):
                return True if (o.items is not None or (o.shape is not None and len(o.shape) > 0)) else None
            if c.extra in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.tuple', 'builtins.set',
                           'builtins.bytes'):
                return False
            if c.extra in ('builtins.int', 'builtins.float', 'builtins.bool', 'builtins.complex', 'numpy.integer',
                           'numpy.floating') or c.extra.startswith('numbers.'):
                return False if o.items is not None or (o.shape is not None and len(o.shape) > 0) else None
            return None
        if o.kind == 'header':
            return nm == 'Header'
        if o.kind == 'hdulist':
            return nm in ('HDUList', 'list')
        if o.kind == 'hdu':
            return nm in (o.extra or '', 'ImageHDU') if nm in ('ImageHDU', 'PrimaryHDU', 'BinTableHDU') else None
        if o.kind in ('opaque',):
            return None
        if o.kind == 'class' and nm in ('type', 'object'):
            return True
        if o.kind == 'ext':
            import builtins as _b
            if o.extra.startswith('builtins.') and isinstance(getattr(_b, o.extra[9:], None), type):
                return True if nm in ('type', 'object') else False if c.extra.startswith('builtins.') else None
            return None
        if o.kind in ('func', 'bound', 'class'):
            return False if nm in ('str', 'list', 'dict', 'tuple', 'int', 'float', 'ndarray') else None
        return None if o.kind == 'exc' else False

    # ------------------------------------------------------------ strings
    def fmt_choices(self, av, spec='', conv=-1):
        """Possible texts for formatting av ('\\0' = unknown text)."""
        out = set()
        if av.any or av.objs or av.empty:
            return ['\0']
        for c in av.consts:
            if not is_concrete(c):
                out.add(str(c[1]) if c[0] == 'Pat' and not spec else '\0')
            elif spec is None:
                out.add('\0')
            else:
                try:
                    v = c[1]
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    out.add(format(v, spec))
                except Exception:
                    out.add('\0')
        return sorted(out)

    def concat_strings(self, parts, tags, ctl):
        acc = ['']
        for p in parts:
            if len(acc) * len(p) > CMAX:
                p = ['\0']
            acc = [a + x for a in acc for x in p]
            if len(acc) > CMAX:
                acc = ['\0']
        return self.strs(acc, tags, ctl)

    def strs(self, texts, tags=E0, ctl=E0):
        cs = set()
        for t in texts:
            if '\0' in t:
                t = _re.sub('\0+', '\0', t)
                cs.add(C(Pat(t)))
            else:
                cs.add(C(t))
        if len(cs) > CMAX:
            return AV(any=True, tags=tags, ctl=ctl)
        return AV(consts=frozenset(cs), tags=tags, ctl=ctl)

    def texts(self, av):
        """All possible texts of a string value, with '\\0' wildcards; ['\\0'] when unknown."""
        if av.any or av.objs or av.empty:
            return ['\0']
        return [c[1] if isinstance(c[1], str) else str(c[1]) for c in av.consts if c[1] is not None] or ['\0']

    # ------------------------------------------------------------ folding
    def fold(self, st, f, avs):
        """Apply a pure Python function to all combinations of constant operands, or None."""
        lists = []
        n = 1
        for a in avs:
            cs = self.pyvals(st, a)
            if cs is None:
                return None
            n *= len(cs)
            if n > 40:
                return None
            lists.append(cs)
        combos = [()]
        for l in lists:
            combos = [c + (x,) for c in combos for x in l]
        res = []
        for c in combos:
            try:
                r = f(*c)
            except Exception:
                return None
            res.append(r)
        return res

    def pyvals(self, st, av, depth=3):
        """Concrete python values an AV may denote (constants and fully known tuples/lists), or None."""
        if av.any or av.empty:
            return None
        out = []
        for c in av.consts:
            if not is_concrete(c):
                return None
            out.append(c[1])
        for oid in av.objs:
            o = st.heap.get(oid)
            if o is None or o.kind not in ('tuple', 'list', 'dict') or o.summary or depth == 0:
                return None
            if o.items is None or o.elem is not None:
                return None
            if o.kind == 'dict':
                d = {}
                for k, (v, p) in o.items.items():
                    if p != 'y' or k[0] == 'obj':
                        return None
                    x = self.pyvals(st, v, depth - 1)
                    if x is None or len(x) != 1:
                        return None
                    d[k[1]] = x[0]
                out.append(d)
                continue
            parts = []
            for i in o.items:
                x = self.pyvals(st, i, depth - 1)
                if x is None or len(x) != 1:
                    return None
                parts.append(x[0])
            out.append(tuple(parts) if o.kind == 'tuple' else list(parts))
        return out

    def lift(self, st, node, pv, tags=E0, ctl=E0, k='lift'):
        """Abstract value of a concrete python value."""
        if isinstance(pv, (list, tuple)):
            items = tuple(self.lift(st, node, x, tags, ctl, (k, i)) for i, x in enumerate(pv))
            return obj(self.I.alloc(st, node, Obj('list' if isinstance(pv, list) else 'tuple', items=items), k),
                       tags)
        if isinstance(pv, dict):
            items = {}
            for i, (kk, vv) in enumerate(pv.items()):
                items[C(kk)] = (self.lift(st, node, vv, tags, ctl, (k, i)), 'y')
            return obj(self.I.alloc(st, node, Obj('dict', items=items), k), tags)
        if isinstance(pv, (set, frozenset)):
            return self.mkset(st, node, [const(x, tags) for x in sorted(pv, key=repr)], True)
        if pv is None or isinstance(pv, (str, int, float, bool, complex, bytes)):
            if isinstance(pv, str) and len(pv) > 400:
                return AV(any=True, tags=tags, ctl=ctl)
            if isinstance(pv, int) and abs(pv) > 10 ** 30:
                return AV(any=True, tags=tags, ctl=ctl)
            return AV(consts=frozenset((C(pv),)), tags=tags, ctl=ctl)
        return AV(any=True, tags=tags, ctl=ctl)

    def lift_all(self, st, node, pvs, tags, ctl):
        r = NOTHING
        for i, p in enumerate(pvs):
            r = jav(r, self.lift(st, node, p, tags, ctl, ('la', i)))
        if len(r.consts) > CMAX:
            return AV(any=True, tags=tags, ctl=ctl)
        return r

    # ------------------------------------------------------------ operators
    def is_arr(self, st, av):
        for oid in av.objs:
            o = st.heap.get(oid)
            if o is not None and o.kind in ('array', 'opaque'):
                return True
        return False

    def unop(self, st, op, v, node):
        if self.I.tables is not None and v.objs:
            r = self.I.tables.unop(st, op, v, node)
            if r is not None:
                return r
        t, c = self.I.dtags(st, [v])
        if isinstance(op, ast.Not):
            p = self.truth(st, v)
            if p == {True}:
                return AV(consts=frozenset((C(False),)), tags=t, ctl=c)
            if p == {False}:
                return AV(consts=frozenset((C(True),)), tags=t, ctl=c)
            return AV(consts=BOOL.consts, tags=t, ctl=c)
        if self.is_arr(st, v):
            return self.elementwise(st, node, [v], vnk={ast.USub: 'neg', ast.Invert: 'inv', ast.UAdd: 'pos'}[type(op)])
        f = {ast.USub: lambda a: -a, ast.UAdd: lambda a: +a, ast.Invert: lambda a: ~a}[type(op)]
        r = self.fold(st, f, [v])
        if r is not None:
            return self.lift_all(st, node, r, t, c)
        vv = self.vn_of(st, v)
        return AV(any=True, tags=t, ctl=c, vn=self.vn('neg', vv) if isinstance(op, ast.USub) and vv is not None else None)

    @staticmethod
    def number(av):
        return bool(av.consts) and not av.any and not av.objs and all(x[0] in ('int', 'float', 'Sym', 'bool') for x in av.consts)

    def binop(self, st, a, op, b, node, k=0):
        I = self.I
        if I.tables is not None and (a.objs or b.objs):
            r = I.tables.binop(st, a, op, b, node)
            if r is not None:
                return r
        if not (a.objs or b.objs):
            t, c = a.tags | b.tags, a.ctl | b.ctl
            f = OPS.get(type(op))
            if f is not None and not a.any and not b.any:
                if isinstance(op, ast.Pow) or isinstance(op, ast.LShift):
                    r = self.fold(st, lambda x, y: f(x, y) if abs(y) < 200 else None, [a, b])
                else:
                    r = self.fold(st, f, [a, b])
                if r is not None:
                    return self.lift_all(st, node, r, t, c)
                if isinstance(op, ast.Add) and all(x[0] in ('str', 'Pat') for x in a.consts | b.consts):
                    return self.concat_strings([self.texts(a), self.texts(b)], t, c)
            if isinstance(op, ast.Add):
                sa = a.consts and all(x[0] in ('str', 'Pat') for x in a.consts) and not a.any
                sb = b.consts and all(x[0] in ('str', 'Pat') for x in b.consts) and not b.any
                if sa or sb:
                    return self.concat_strings([self.texts(a), self.texts(b)], t, c)
            if isinstance(op, ast.Mod) and a.single() is not None and isinstance(a.single()[0], str):
                txt = _re.sub(r'%[-+ 0-9.]*[a-zA-Z]', '\0', a.single()[0])
                return self.strs([txt], t, c)
            v = self.vn(VNAME.get(type(op), 'op'), self.vn_of(st, a), self.vn_of(st, b))
            if self.number(a) and self.number(b):
                return anynum(t, c, v)
            return AV(any=True, tags=t, ctl=c, vn=v)
        # operator overloading on repo classes
        for x, y, m in ((a, b, '__%s__'),):
            o = I.one(st, x, 'inst')
            if o is not None and o.cls is not None:
                names = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv'}
                nm = names.get(type(op))
                cv = I.class_lookup(st, o.cls, '__%s__' % nm) if nm else None
                if isinstance(cv, AV):
                    return I.call(st, cv, [x, y], {}, node)
        if isinstance(op, ast.Add):
            ao, bo = I.one(st, a), I.one(st, b)
            if ao is not None and bo is not None and ao.kind in ('list', 'tuple') and ao.kind == bo.kind:
                if ao.items is not None and bo.items is not None:
                    return obj(I.alloc(st, node, Obj(ao.kind, items=tuple(ao.items) + tuple(bo.items)), ('cat', k)))
                return obj(I.alloc(st, node, Obj(ao.kind, elem=jav(jelem(ao), jelem(bo))), ('cat', k)))
            if self.only_kinds(st, a, ('list', 'tuple')) and self.only_kinds(st, b, ('list', 'tuple')):
                el = jall([jelem(o) for x in (a, b) for _, o in I.objs(st, x)])
                kd = I.objs(st, a)[0][1].kind if I.objs(st, a) else 'list'
                return obj(I.alloc(st, node, Obj(kd, elem=el), ('cat', k)))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                o = I.one(st, x)
                if o is not None and o.kind in ('list', 'tuple') and not self.is_arr(st, y):
                    n = y.single()
                    if o.items is not None and n is not None and isinstance(n[0], int) and 0 <= n[0] * len(o.items) <= 64:
                        return obj(I.alloc(st, node, Obj(o.kind, items=tuple(o.items) * n[0]), ('rep', k)))
                    return obj(I.alloc(st, node, Obj(o.kind, elem=jelem(o)), ('rep', k)))
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            ao, bo = I.one(st, a), I.one(st, b)
            if ao is not None and bo is not None and ao.kind == 'set' and bo.kind == 'set':
                return self.mkset(st, node, [jav(jelem(ao), jelem(bo))], False)
        if isinstance(op, ast.Mod) and a.single() is not None and isinstance(a.single()[0], str):
            t, c = I.dtags(st, [a, b])
            txt = _re.sub(r'%[-+ 0-9.]*[a-zA-Z]', '\0', a.single()[0])
            return self.strs([txt], t, c)
        return self.elementwise(st, node, [a, b], vnk=VNAME.get(type(op), 'op'), k=k)

    def only_kinds(self, st, av, kinds):
        return bool(av.objs) and not av.consts and not av.any and \
            all(st.heap.get(o) is not None and st.heap[o].kind in kinds for o in av.objs)

    def augop(self, st, cur, op, v, node):
        """Augmented assignment: in-place for mutable containers and arrays."""
        I = self.I
        mut = []
        for oid, o in I.objs(st, cur):
            if o.kind in ('array', 'opaque', 'list', 'set', 'dict'):
                mut.append((oid, o))
        if not mut:
            return self.binop(st, cur, op, v, node)
        r = NOTHING
        for oid, o in mut:
            if o.kind in ('array', 'opaque'):
                if o.shape is not None and len(o.shape) == 0 and o.origin is None:
                    r = jav(r, self.binop(st, obj(oid), op, v, node, k=('aug', oid)))
                    continue
                res = self.binop(st, obj(oid), op, v, node, k=('aug', oid))
                self.arr_store(st, obj(oid), res, node, 'augmented assignment', full=True)
                r = jav(r, obj(oid))
            elif o.kind == 'list' and isinstance(op, ast.Add):
                self.call_method(st, oid, o, 'extend', [v], {}, node)
                r = jav(r, obj(oid))
            elif o.kind == 'list':
                r = jav(r, self.binop(st, obj(oid), op, v, node, k=('aug', oid)))
            else:
                I.mutate(st, oid, o, 'augmented assignment', node)
                el = jav(jelem(o), v)
                st.heap[oid] = o.repl(elem=el) if o.kind == 'dict' else o.repl(elem=el, items=None)
                r = jav(r, obj(oid))
        rest = cur.repl(objs=cur.objs - frozenset(x for x, _ in mut))
        if not rest.empty:
            r = jav(r, self.binop(st, rest, op, v, node, k='augrest'))
        t, c = I.dtags(st, [v])
        return r.with_tags(E0, c)

    def compare(self, st, a, op, b, node, k=0):
        I = self.I
        if I.tables is not None and (a.objs or b.objs):
            r = I.tables.compare(st, a, op, b, node)
            if r is not None:
                return r
        t, c = I.dtags(st, [a, b])
        if isinstance(op, (ast.Is, ast.IsNot)):
            res = set()
            neg = isinstance(op, ast.IsNot)
            if a.any and (b.any or b.consts or b.objs) or b.any:
                res = {True, False}
            else:
                for x in a.consts:
                    for y in b.consts:
                        if x == y and x[0] in ('Sym', 'Pat'):
                            res |= {True, False}
                        elif x == y:
                            res.add(True)
                        else:
                            res.add(False)
                    if b.objs:
                        res.add(False)
                for x in a.objs:
                    if b.consts:
                        res.add(False)
                    for y in b.objs:
                        xo = st.heap.get(x)
                        if x != y:
                            res.add(False)
                        elif xo is not None and xo.summary:
                            res |= {True, False}
                        else:
                            res.add(True)
                if len(a.objs) > 1 or len(b.objs) > 1:
                    pass
            return AV(consts=frozenset(C(x != neg) for x in res) or BOOL.consts, tags=t, ctl=c)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a, node)
            if isinstance(op, ast.NotIn):
                r = {not x for x in r}
            return AV(consts=frozenset(C(x) for x in r), tags=t, ctl=c)
        if self.is_arr(st, a) or self.is_arr(st, b):
            return self.elementwise(st, node, [a, b], vnk='cmp' + type(op).__name__, k=('cmp', k))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            res = self.eq(st, a, b)
            if isinstance(op, ast.NotEq):
                res = {not x for x in res}
            return AV(consts=frozenset(C(x) for x in res), tags=t, ctl=c)
        r = self.fold(st, CMPS[type(op)], [a, b])
        if r is not None:
            return AV(consts=frozenset(C(bool(x)) for x in r), tags=t, ctl=c)
        return AV(consts=BOOL.consts, tags=t, ctl=c)

    def eq(self, st, a, b, depth=3):
        if a.any or b.any or a.empty or b.empty or depth == 0:
            return {True, False}
        res = set()
        for x in a.consts:
            for y in b.consts:
                res |= self.eqc(x, y)
            if b.objs:
                res |= {False} if not self.is_arr(st, b) else {True, False}
        for x in a.objs:
            xo = st.heap.get(x)
            if b.consts:
                res |= {False} if xo is not None and xo.kind != 'array' else {True, False}
            for y in b.objs:
                yo = st.heap.get(y)
                if xo is None or yo is None:
                    res |= {True, False}
                elif xo.kind in ('class', 'func', 'module', 'ext') and yo.kind in ('class', 'func', 'module', 'ext'):
                    res.add(x == y)
                elif xo.kind in ('tuple', 'list') and yo.kind == xo.kind:
                    if xo.items is None or yo.items is None:
                        res |= {True, False}
                    elif len(xo.items) != len(yo.items):
                        res.add(False)
                    else:
                        rr = {True}
                        for i, j in zip(xo.items, yo.items):
                            e = self.eq(st, i, j, depth - 1)
                            if e == {False}:
                                rr = {False}
                                break
                            if e != {True}:
                                rr = {True, False}
                        res |= rr
                elif x == y and not xo.summary:
                    res.add(True)
                else:
                    res |= {True, False}
        return res or {True, False}

    def eqc(self, x, y):
        if is_concrete(x) and is_concrete(y):
            try:
                return {bool(x[1] == y[1])}
            except Exception:
                return {True, False}
        if x[0] == 'Sym' and y[0] == 'Sym':
            return {True} if x[1] == y[1] and x[1][:1] != '?' else {True, False}
        if x[0] == 'Pat' or y[0] == 'Pat':
            if x[0] == 'Pat' and y[0] == 'Pat':
                return {True, False}
            p, s = (x[1], y) if x[0] == 'Pat' else (y[1], x)
            if s[0] == 'str' and not pat_match(p, s[1]):
                return {False}
            if s[0] not in ('str', 'Pat'):
                return {False}
        if 'Sym' in (x[0], y[0]):
            other = y if x[0] == 'Sym' else x
            if other[0] in ('str', 'NoneType'):
                return {False}
        return {True, False}

    def contains(self, st, cont, item, node):
        I = self.I
        res = set()
        if cont.any:
            return {True, False}
        for cc in cont.consts:
            if cc[0] in ('str', 'Pat'):
                for x in (item.consts or [None]):
                    if x is None or item.any or not is_concrete(x) or cc[0] == 'Pat':
                        if x is not None and cc[0] == 'Pat' and is_concrete(x) and isinstance(x[1], str) and \
                                any(x[1] in p for p in cc[1].split('\0')):
                            res.add(True)
                        else:
                            res |= {True, False}
                    else:
                        try:
                            res.add(x[1] in cc[1])
                        except Exception:
                            res |= {True, False}
        for oid, o in I.objs(st, cont):
            if o.kind == 'iter' and 'keysof' in o.attrs:
                for x in o.attrs['keysof'].objs:
                    res |= self.hdr_has(st, st.heap[x], item)
            elif o.kind == 'header':
                res |= self.hdr_has(st, o, item)
            elif o.kind == 'dict':
                keys = self.dict_keys(st, item)
                if keys is None:
                    res |= {True, False}
                else:
                    for k in keys:
                        if o.items is not None and k in o.items:
                            p = o.items[k][1]
                            res |= {True} if p == 'y' else ({False} if p == 'n' else {True, False})
                        elif o.elem is not None or o.summary:
                            res |= {True, False}
                        else:
                            res.add(False)
            elif o.kind in ('list', 'tuple', 'set'):
                if o.items is not None:
                    hit = {False}
                    for i in o.items:
                        e = self.eq(st, i, item)
                        if e == {True}:
                            hit = {True}
                            break
                        if True in e:
                            hit = {True, False}
                    res |= hit
                else:
                    el = jelem(o)
                    e = self.eq(st, el, item)
                    res |= {False} if e == {False} else {True, False}
            elif o.kind == 'inst' and o.cls is not None:
                cv = I.class_lookup(st, o.cls, '__contains__')
                if isinstance(cv, AV):
                    r = I.call(st, cv, [obj(oid), item], {}, node)
                    res |= self.truth(st, r)
                else:
                    res |= {True, False}
            else:
                res |= {True, False}
        return res or {True, False}

    def dict_keys(self, st, kv):
        """Abstract dict keys a value may denote, or None when unknown."""
        if kv.any or kv.empty:
            return None
        out = []
        for c in sorted(kv.consts, key=repr):
            if c[0] == 'Sym':
                return None
            if c[0] == 'bool' or (c[0] == 'float' and c[1] == int(c[1])):
                c = C(int(c[1]))
            out.append(c)
        for oid in sorted(kv.objs):
            o = st.heap.get(oid)
            if o is None:
                return None
            if o.kind in ('class', 'func', 'ext'):
                out.append(('obj', oid))
            elif o.kind == 'tuple':
                pv = self.pyvals(st, obj(oid))
                if pv is None:
                    return None
                try:
                    hash(pv[0])
                except TypeError:
                    return None
                out.append(('tuple', pv[0]))
            else:
                return None
        return out

    def key_av(self, st, k, node=None):
        if k[0] == 'obj':
            return obj(k[1])
        if k[0] == 'tuple':
            return self.lift(st, node, k[1], k=('key', k))
        return AV(consts=frozenset((k,)))

    def mkset(self, st, node, items, known):
        """Sets: iteration order is not defined, so elements carry the 'set-order' tag when iterated."""
        its = None
        if known:
            seen = []
            ok = True
            for i in items:
                i = bound(i)
                if i.single() is None and self.I.one(st, i) is None:
                    ok = False
                if i not in seen:
                    seen.append(i)
            if ok or len(seen) <= 1:
                its = tuple(seen)
        if its is not None:
            return obj(self.I.alloc(st, node, Obj('set', items=its), 'set'))
        return obj(self.I.alloc(st, node, Obj('set', elem=jall([bound(i) for i in items]) if items else None), 'set'))


class _Key(str):
    """Textual leaf of a value number (kept apart from integer value numbers)."""

    def __lt__(self, o):
        return str(self) < str(o)


def pat_match(p, s):
    rx = '.*'.join(_re.escape(x) for x in p.split('\0'))
    return _re.fullmatch(rx, s, _re.S) is not None
