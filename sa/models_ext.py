"""Standard library and third-party calls."""
import json as _json
import math as _math
import os as _os
import re as _re
from .core import *

CONSTS = {'math.pi': _math.pi, 'numpy.pi': _math.pi, 'numpy.e': _math.e, 'math.e': _math.e, 'os.sep': '/', 'os.path.sep': '/',
          'os.linesep': '\n', 'numpy.inf': float('inf'), 'numpy.Inf': float('inf'), 'math.inf': float('inf')}
FS_WRITE = {'os.remove', 'os.mkdir', 'os.makedirs', 'os.rename', 'os.replace', 'os.rmdir', 'os.unlink', 'os.removedirs',
            'os.symlink', 'os.link', 'os.chmod', 'os.truncate', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2',
            'shutil.move', 'shutil.rmtree', 'shutil.copytree', 'urllib.request.urlretrieve', 'numpy.savetxt', 'numpy.save',
            'numpy.savez', 'matplotlib.pyplot.savefig', 'astropy.io.ascii.write', 'pickle.dump', 'os.open', 'os.write',
            'tempfile.mkdtemp', 'tempfile.mkstemp', 'os.utime', 'imageio.imwrite'}
FS_READ = {'os.listdir', 'os.walk', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'glob.glob', 'os.stat', 'os.scandir',
           'astropy.io.ascii.read', 'pandas.read_csv', 'os.path.getmtime', 'glob.iglob', 'os.access', 'os.path.getsize'}
PROC = ('subprocess.', 'os.system', 'os.popen', 'os.exec', 'os.kill', 'os.fork', 'os.spawn', 'multiprocessing.', 'socket.',
        'urllib.', 'requests.', 'http.', 'ftplib.')
CLOCK = {'time.time', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.date.today', 'datetime.datetime.today',
         'astropy.time.Time.now', 'time.monotonic', 'time.perf_counter', 'time.localtime', 'time.gmtime', 'time.strftime',
         'time.ctime'}
UNORD_FS = {'os.listdir', 'glob.glob', 'os.scandir', 'glob.iglob', 'os.walk'}


class Ext:
    # ------------------------------------------------------------ attributes of external names
    def ext_attr(self, st, o, name, node):
        I = self.I
        full = o.extra + '.' + name
        if full in CONSTS:
            return const(CONSTS[full])
        if full in ('numpy.nan', 'numpy.NaN', 'math.nan'):
            return unknown()
        if full in ('numpy.newaxis',):
            return NONE
        if full == 'os.environ':
            return I.new(st, node, 'opaque', k='environ', extra='environ')
        if full in ('sys.path', 'sys.argv', 'sys.modules'):
            return I.new(st, node, 'opaque', k='sys', extra=full, origin='global:' + full)
        if name == '[]':
            return unknown()
        v = self.ext_over.get(full)
        if v is not None:
            return v
        return I.ext(st, full)

    # ------------------------------------------------------------ calls
    def call_ext(self, st, name, args, kw, node):
        I = self.I
        h = I.ext_hooks.get(name)
        if h is not None:
            r = h(I, st, node, args, kw)
            if r is not None:
                return r
        for l in I.listeners:
            f = getattr(l, 'on_ext', None)
            if f:
                f(I, st, name, args, kw, node)
        if name.startswith('builtins.'):
            return self.builtin(st, name[9:], args, kw, node)
        if name.startswith('numpy.'):
            return self.np_call(st, name[6:], args, kw, node, name)
        if name.startswith('astropy.io.fits') or name.startswith('astropy.io.fits.'):
            r = self.fits_call(st, name, args, kw, node)
            if r is not None:
                return r
        pa = [a for a in args if isinstance(a, AV)]
        r = self.std_call(st, name, pa, kw, node)
        if r is not None:
            return r
        return self.unknown_call(st, node, args, kw, name)

    def std_call(self, st, name, pa, kw, node):
        I = self.I
        t, c = I.dtags(st, pa + list(kw.values()))
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.deepcopy(st, pa[0], node) if name == 'copy.deepcopy' else self.shallow(st, pa[0], node)
        if name in CLOCK:
            I.effect('clock', node, None, st)
            return I.new(st, node, 'opaque', k='clk', tags=frozenset(('!clock',)))
        if name in FS_WRITE:
            p = pa[1] if name.startswith('shutil.') and len(pa) > 1 and 'rmtree' not in name else (pa[0] if pa else None)
            if name in ('urllib.request.urlretrieve', 'pickle.dump') and len(pa) > 1:
                p = pa[1]
            if name == 'astropy.io.ascii.write':
                p = pa[1] if len(pa) > 1 else kw.get('output')
            I.effect('fs-write:' + name, node, p, st)
            if name in ('urllib.request.urlretrieve', 'tempfile.mkstemp'):
                a = AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
                return I.new(st, node, 'tuple', k='wr', items=(a, unknown(t, c)))
            if name in ('tempfile.mkdtemp', 'os.open', 'os.write') or name.startswith('shutil.copy'):
                return unknown(t, c)
            return NONE
        if name in FS_READ:
            I.effect('fs-read', node, pa[0] if pa else None, st)
            if name in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.access'):
                return AV(consts=BOOL.consts, tags=frozenset(('!fs',)) | t, ctl=c)
            if name == 'os.walk':
                ts = frozenset(('!fs-order',)) | t
                fn = I.new(st, node, 'list', k='wf', elem=AV(consts=frozenset((C(Pat('\0')),)), tags=ts))
                return I.new(st, node, 'list', k='wk', elem=I.new(st, node, 'tuple', k='wt', items=(
                    AV(consts=frozenset((C(Pat('\0')),)), tags=ts), fn, fn)))
            if name in UNORD_FS:
                base = self.texts(pa[0])[0] if pa and name.startswith('glob') else None
                return I.new(st, node, 'list', k='ld', elem=AV(consts=frozenset((C(Pat('\0')),)),
                                                              tags=t | frozenset(('!fs-order',)), ctl=c))
            if name == 'pandas.read_csv':
                return I.new(st, node, 'opaque', k='df', tags=t, ctl=c, extra='df')
            return I.new(st, node, 'opaque', k='rd', tags=t | frozenset(('!fs',)), ctl=c)
        if name.startswith(PROC):
            I.effect('process:' + name, node, pa[0] if pa else None, st)
            return unknown(t, c)
        if name.startswith('os.'):
            return self.os_call(st, name, pa, kw, node, t, c)
        if name.startswith('re.'):
            return self.re_call(st, name, pa, kw, node, t, c)
        if name in ('json.load', 'json.loads'):
            if name == 'json.load':
                o = I.one(st, pa[0], 'opaque') if pa else None
                if o is not None and isinstance(o.extra, tuple) and o.extra[0] == 'file' and len(o.extra[2]) == 1:
                    p = o.extra[2][0]
                    if '\0' not in p and p.startswith(I.repo.root) and _os.path.isfile(p):
                        with open(p) as f:
                            try:
                                return self.lift(st, node, _json.load(f), k='json')
                            except ValueError:
                                pass
                if self.json_hook is not None:
                    r = self.json_hook(self, st, o, node)
                    if r is not None:
                        return r
            return unknown(t, c)
        if name == 'json.dump':
            I.effect('fs-write:json.dump', node, None, st)
            return NONE
        if name in ('json.dumps', 'pprint.pformat'):
            return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
        if name == 'warnings.warn':
            I.effect('warn', node, None, st)
            return NONE
        if name.startswith(('matplotlib.', 'warnings.', 'logging.')):
            for a in pa:
                pass
            if name.endswith(('.savefig', '.imsave')):
                I.effect('fs-write:' + name, node, pa[0] if pa else None, st)
            return I.new(st, node, 'opaque', k='plt', extra='plt')
        if name in ('pandas.DataFrame', 'pandas.Series', 'pandas.concat'):
            r = I.new(st, node, 'opaque', k='df', tags=t, ctl=c, extra='df')
            return r
        if name == 'configparser.ConfigParser':
            return I.new(st, node, 'opaque', k='cfg', tags=frozenset(('!config',)), extra='configparser')
        if name.startswith('scipy.ndimage.') or name.startswith('scipy.signal.'):
            out = kw.get('output')
            if out is not None and self.is_arr(st, out):
                self.arr_store(st, out, ANY.with_tags(t, c), node, 'output=')
                return out
            if name.endswith(('.shift', '.rotate', '.map_coordinates', '.gaussian_filter', '.median_filter', '.zoom',
                              '.affine_transform', '.convolve', '.binary_dilation')):
                a0 = pa[0] if pa else kw.get('input', ANY)
                sh = self.shape_of(st, a0) if not name.endswith(('.rotate', '.zoom', '.map_coordinates')) else None
                vns = [self.vn_of(st, a) for a in pa] + [self.vn_of(st, v) for k, v in sorted(kw.items())]
                vn = self.vn(name, *vns) if vns and all(v is not None for v in vns) else None
                return I.mkarr(st, node, tags=t, ctl=c, shape=sh, k='ndi', vn=vn)
        if name.startswith('functools.'):
            if name == 'functools.partial' and pa:
                return I.new(st, node, 'partial', k='pt', items=tuple(pa), extra=tuple(sorted(kw)), attrs=dict(kw))
            if name == 'functools.reduce' and len(pa) > 1:
                kind, its = self.iterate(st, pa[1], node)
                if kind == 'known' and its:
                    r = pa[2] if len(pa) > 2 else its[0]
                    for i, x in enumerate(its if len(pa) > 2 else its[1:]):
                        si = I.act.iter
                        I.act.iter = si + (('red', i),)
                        r = self.callback(st, pa[0], [r, x], node)
                        I.act.iter = si
                    return r
        if name.startswith('itertools.'):
            return self.itertools_call(st, name, pa, kw, node, t, c)
        if name.startswith('collections.'):
            b = name.split('.')[-1]
            if b in ('OrderedDict',):
                return self.b_dict(st, pa, kw, node)
            if b == 'defaultdict':
                d = self.callback(st, pa[0], [], node) if pa else None
                return I.new(st, node, 'dict', k='dd', items={}, elem=d)
        if name.startswith('uuid.') or name.startswith('secrets.') or name.startswith('random.'):
            I.effect('rng:' + name, node, None, st)
            return unknown(t | frozenset(('!rng',)), c)
        if name.startswith('hashlib.'):
            return I.new(st, node, 'opaque', k='hl', tags=t, ctl=c)
        if name.startswith('math.'):
            f = getattr(_math, name[5:], None)
            if f is not None:
                r = self.fold(st, f, pa)
                if r is not None:
                    return self.lift_all(st, node, r, t, c)
            vns = [self.vn_of(st, a) for a in pa]
            return AV(any=True, tags=t, ctl=c, vn=self.vn(name[5:], *vns) if vns and all(v is not None for v in vns) else None)
        if name in ('sys.exit',):
            I.die(st, builtin_mro('SystemExit'), node)
        if name.startswith('sys.') or name.startswith('inspect.'):
            if name == 'sys.path.insert':
                I.effect('sys-path', node, pa[1] if len(pa) > 1 else None, st)
            return unknown(t, c)
        return None

    def itertools_call(self, st, name, pa, kw, node, t, c):
        I = self.I
        al = [self.iterate(st, a, node) for a in pa]
        if name == 'itertools.chain' and all(k == 'known' for k, _ in al):
            return I.new(st, node, 'list', k='ch', items=tuple(x for _, i in al for x in i))
        if name.endswith('zip_longest'):
            return self.b_zip(st, pa, {}, node)
        el = tuple(jall(i) if k == 'known' else i for k, i in al)
        if name in ('itertools.product', 'itertools.combinations', 'itertools.permutations'):
            return I.new(st, node, 'list', k='pr', elem=I.new(st, node, 'tuple', k='prt', items=el if name.endswith(
                'product') else None, elem=None if name.endswith('product') else jall(el)))
        return I.new(st, node, 'list', k='it', elem=jall(el) if el else unknown(t, c))

    def os_call(self, st, name, pa, kw, node, t, c):
        I = self.I
        if name == 'os.getcwd':
            I.effect('cwd', node, None, st)
            return AV(consts=frozenset((C(Pat('\0')),)), tags=frozenset(('!cwd',)))
        if name == 'os.path.join':
            parts = []
            for i, a in enumerate(pa):
                if i:
                    parts.append(['/'])
                parts.append(self.texts(a))
            # a known leading component joins with a single separator
            acc = ['']
            for p in [self.texts(a) for a in pa]:
                nxt = []
                for x in acc:
                    for y in p:
                        if y.startswith('/'):
                            nxt.append(y)
                        elif x == '' or x.endswith('/'):
                            nxt.append(x + y)
                        else:
                            nxt.append(x + '/' + y)
                acc = nxt[:CMAX + 1]
            if len(acc) > CMAX:
                acc = ['\0']
            return self.strs(acc, t, c)
        f = {'os.path.dirname': _os.path.dirname, 'os.path.basename': _os.path.basename, 'os.path.split': _os.path.split,
             'os.path.splitext': _os.path.splitext, 'os.path.normpath': _os.path.normpath, 'os.path.isabs': _os.path.isabs}.get(name)
        if name in ('os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.fspath'):
            r = self.fold(st, lambda s: _os.path.normpath(s) if s.startswith('/') else None, pa[:1])
            if r is not None and all(x is not None for x in r):
                return self.lift_all(st, node, r, t, c)
            return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
        if f is not None and pa:
            r = self.fold(st, f, pa[:1])
            if r is not None:
                return self.lift_all(st, node, r, t, c)
            outs = []
            for s in self.texts(pa[0]):
                outs.append(self.pat_path(s, name))
            if name in ('os.path.split', 'os.path.splitext'):
                a = self.strs([x[0] for x in outs], t, c)
                b = self.strs([x[1] for x in outs], t, c)
                return I.new(st, node, 'tuple', k='ps', items=(a, b))
            return self.strs(outs, t, c)
        if name in ('os.environ.get', 'os.getenv'):
            I.effect('environ', node, None, st)
            return unknown(t, c)
        if name == 'os.path.sep.join':
            return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
        return None

    def pat_path(self, s, name):
        """Path functions on partially known text ('\\0' may contain separators)."""
        tail = s.rsplit('\0', 1)[-1] if '\0' in s else s
        if name == 'os.path.basename':
            return _os.path.basename(s) if '/' in tail else '\0' + tail
        if name == 'os.path.dirname':
            return _os.path.dirname(s) if '/' in tail else '\0'
        if name == 'os.path.split':
            return _os.path.split(s) if '/' in tail else ('\0', '\0' + tail)
        if name == 'os.path.splitext':
            return _os.path.splitext(s) if '.' in tail else ('\0', '\0')
        return '\0'

    def re_call(self, st, name, pa, kw, node, t, c):
        I = self.I
        if name == 're.sub' and len(pa) >= 3:
            p, r, s = pa[:3]
            ps, rs = p.single(), r.single()
            if ps is not None and rs is not None and not s.any and not s.objs and s.consts:
                out = []
                for x in self.texts(s):
                    if '\0' not in x:
                        try:
                            out.append(_re.sub(ps[0], rs[0], x))
                            continue
                        except _re.error:
                            pass
                    # pieces that are certainly known are rewritten; unknown text stays unknown
                    try:
                        y = _re.sub(ps[0], rs[0], x)
                    except _re.error:
                        y = '\0'
                    out.append(y if y.count('\0') >= 1 else '\0' + y)
                return self.strs(out, t, c)
            return AV(consts=frozenset((C(Pat('\0')),)), tags=t, ctl=c)
        if name in ('re.match', 're.search', 're.fullmatch') and len(pa) >= 2:
            res = set()
            ps = pa[0].single()
            if ps is not None and not pa[1].any and not pa[1].objs and all(x[0] == 'str' for x in pa[1].consts):
                for x in pa[1].consts:
                    res.add(getattr(_re, name[3:])(ps[0], x[1]) is not None)
            else:
                res = {True, False}
            out = NOTHING
            if True in res:
                out = I.new(st, node, 'opaque', k='match', tags=t, ctl=c)
            if False in res:
                out = jav(out, NONE.with_tags(t, c))
            return out
        return unknown(t, c)

    # ------------------------------------------------------------ copies
    def shallow(self, st, av, node):
        I = self.I
        r = av.repl(objs=E0)
        for oid, o in I.objs(st, av):
            if o.kind == 'array':
                r = jav(r, self.copy_arr(st, node, obj(oid), k=('sh', oid)))
            elif o.kind == 'header':
                r = jav(r, self.hdr_copy(st, node, oid, 'sh'))
            elif o.kind in ('class', 'func', 'module', 'ext', 'tuple'):
                r = jav(r, obj(oid))
            else:
                r = jav(r, obj(I.alloc(st, node, o.repl(origin=None, summary=False, site=None), ('sh', oid),
                                       fresh=o.kind == 'inst')))
        return r

    def deepcopy(self, st, av, node, memo=None, depth=0):
        I = self.I
        if memo is None:
            memo = {}
        if depth > 30:
            return av
        r = av.repl(objs=E0)
        for oid, o in I.objs(st, av):
            if oid in memo:
                r = jav(r, memo[oid])
                continue
            k = o.kind
            if k in ('class', 'func', 'module', 'ext', 'bound', 'property', 'exc', 'bmeth'):
                r = jav(r, obj(oid))
                continue
            if k == 'array' and (o.items is None or not any(i.objs for i in o.items)):
                n = self.copy_arr(st, node, obj(oid), k=('dc', oid))
                memo[oid] = n
                r = jav(r, n)
                continue
            if k == 'array' and isinstance(o.extra, tuple):
                n = self.copy_arr(st, node, obj(oid), k=('dc', oid))
                memo[oid] = n
                r = jav(r, n)
                continue
            nid = I.alloc(st, node, o.repl(origin=None, summary=False, site=None), ('dc', oid))
            memo[oid] = obj(nid)
            d = lambda v: self.deepcopy(st, v, node, memo, depth + 1)
            attrs = {a: d(v) for a, v in o.attrs.items()}
            items = o.items
            if k == 'header':
                pass
            elif isinstance(items, dict):
                items = {kk: (d(v), p) for kk, (v, p) in items.items()}
            elif items is not None:
                items = tuple(d(v) for v in items)
            elem = d(o.elem) if o.elem is not None else None
            st.heap[nid] = st.heap[nid].repl(attrs=attrs, items=items, elem=elem)
            r = jav(r, obj(nid))
        return r

    # ------------------------------------------------------------ callbacks and unknown calls
    def callback(self, st, f, args, node):
        """A repository function called by library code: interpreted once."""
        I = self.I
        r = NOTHING
        for oid, o in I.objs(st, f):
            if o.kind in ('func', 'bound', 'class', 'ext', 'bmeth', 'partial'):
                r = jav(r, I.call(st, obj(oid), list(args), {}, node))
            else:
                r = jav(r, ANY)
        if f.any or r.empty:
            t, c = I.dtags(st, args)
            r = jav(r, unknown(t, c))
        return r

    def unknown_call(self, st, node, args, kw, name, quiet=False):
        I = self.I
        pa = [a for a in args if isinstance(a, AV)] + [a[1] for a in args if not isinstance(a, AV)]
        vals = pa + list(kw.values())
        t, c = I.dtags(st, vals)
        if not quiet and I.record and not name.startswith('.'):
            I.unknown_calls.setdefault(name, set()).add(getattr(node, '_nid', 0))
        if I.trydepth > 0:
            I.may_raise(st, node)
        for a in pa + list(kw.values()):
            for oid, o in I.objs(st, a):
                if o.kind in ('func', 'bound') and not quiet:
                    self.callback_opaque(st, oid, o, t, c, node)
        if not any(self.is_arr(st, a) for a in vals):
            vns = [self.vn_of(st, a) for a in vals]
            if name.startswith('.'):
                return AV(any=True, tags=t, ctl=c)
            v = self.vn('call.' + name, *vns) if vns and all(x is not None for x in vns) else None
            if any(st.heap[x].kind not in ('ext', 'class', 'func') for a in vals for x in a.objs if st.heap.get(x)):
                return I.new(st, node, 'opaque', k=('uk', name), tags=t, ctl=c)
            return AV(any=True, tags=t, ctl=c, vn=v)
        return I.new(st, node, 'opaque', k=('uk', name), tags=t, ctl=c)

    def callback_opaque(self, st, oid, o, t, c, node):
        I = self.I
        fo = o if o.kind == 'func' else I.one(st, o.items[0])
        if fo is None or fo.kind != 'func':
            return
        a = fo.extra.node.args
        n = len(a.posonlyargs) + len(a.args) - len(fo.attrs) - (1 if o.kind == 'bound' else 0)
        kid = st.fork()
        try:
            I.call(kid, obj(oid), [unknown(t, c)] * max(n, 0), {}, node)
        except Exception as e:
            if type(e).__name__ != 'Dead':
                raise
            return
        stay = st.fork()
        merge_children(st, [kid, stay])

    def enter(self, st, v, node):
        I = self.I
        o = I.one(st, v)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            cv = I.class_lookup(st, o.cls, '__enter__')
            if isinstance(cv, AV):
                return I.call(st, cv, [v], {}, node)
        return v
