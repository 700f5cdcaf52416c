"""Things several properties share: the list of entry points, running one root, describing events."""
import ast
import json
import os
import re
from sa.core import *
from sa.engine import Finding, CheckError, results
from sa.roots import Run, FakeNode
from sa import args

HERE = os.path.dirname(os.path.abspath(__file__))
MAX_STEPS = 400000


def entry_points(ctx, kinds=('products',), extra_steps=True):
    """Public entry points: the committed list, plus whatever the step registry names now."""
    spec = json.load(open(os.path.join(os.path.dirname(HERE), 'sa', 'roots.json')))
    out = []
    for k in kinds:
        for f in spec[k]:
            if find(ctx, f) is not None:
                out.append(f)
            else:
                ctx.skipped.append('missing: ' + f)
    if extra_steps:
        for name, f in registry(ctx).items():
            if f and f not in out and find(ctx, f) is not None:
                out.append(f)
    return out


def find(ctx, full):
    """The FunctionDef node of a dotted name, following re-exports through imports."""
    v = Run(ctx.I).func(full)
    if v is None:
        return None
    for o in v.objs:
        x = ctx.I.base.heap.get(o)
        if x is not None and x.kind == 'func':
            return x.extra.node
    return None


def registry(ctx):
    """Step name -> dotted name of the function the registry maps it to (evaluated by the interpreter)."""
    I = ctx.I
    st = Run(I).st
    m = st.heap[I.mods['corgidrp.walker']]
    v = m.attrs.get('all_steps')
    out = {}
    for oid in v.objs:
        d = st.heap[oid]
        for k, slot in d.items.items():
            val = slot[0] if isinstance(slot, tuple) else slot
            f = None
            for fo in val.objs:
                x = st.heap.get(fo)
                if x is not None and x.kind == 'func':
                    f = x.extra.fullname
            out[key_text(k)] = f
    return out


def key_text(k):
    if isinstance(k, tuple) and len(k) == 2:
        k = k[1]
    return getattr(k, 'v', k)


def run_root(ctx, full, steps=MAX_STEPS, before=None, **kw):
    """Interpret one entry point on abstract inputs.  -> (Run, result AV or None)."""
    I = ctx.I
    R = Run(I)
    node = find(ctx, full)
    with R.quiet():
        a = args.build(R, ctx.repo, node, **kw)
        for k, v in a.items():
            R.mark(k, v)
    if before:
        before(R, a)
    I.max_steps = steps
    out = R.call(full, [], a)
    I.max_steps = None
    return R, out


def short(full):
    return full.split('.', 1)[1] if full.startswith('corgidrp.') else full


def strip_idx(path):
    return re.sub(r'\[[^\]]*\]', '[]', str(path))


def data_classes(ctx):
    """Subclasses of Image in the data module, in source order (Image first)."""
    out = ['Image']
    for n in ctx.repo.trees['corgidrp.data'].body:
        if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id in out for b in n.bases):
            out.append(n.name)
    return out


def ctor(ctx, cls):
    """The __init__ a data class defines itself, or None."""
    for n in ctx.repo.trees['corgidrp.data'].body:
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == '__init__':
                    return f
    return None


def hdus(R, names, tag='in'):
    """A list of image HDUs with the given names."""
    out = []
    for nm in names:
        shape = ('K3', 'NP') if nm == 'CTEXCAM' else ('N3',)
        if nm == 'CTEXCAM':
            shape = (3, 'NP')
        out.append(R.I.models.hdu_new(R.st, 'ImageHDU', [], {
            'data': R.array('%s.%s' % (tag, nm), shape), 'name': const(nm),
            'header': R.header('%s.%s.hdr' % (tag, nm), {'EXTNAME': nm})}, FakeNode()))
    return R.I.mklist(R.st, FakeNode(), out)


def ctor_args(R, ctx, cls, dataset=None, keys=None, absent=()):
    """Arguments with which a data class makes a new product from arrays and headers."""
    node = ctor(ctx, cls) or ctor(ctx, 'Image')
    sh = args.CAL_SHAPES.get(cls, ('R', 'C'))
    kw = {}
    with R.quiet():
        for i, p in enumerate(node.args.args[1:]):
            n = p.arg
            if n == 'ext_hdr':
                k = {'EXTNAME': 'PSFCUBE'} if cls == 'CoreThroughputCalibration' else {}
                v = R.header('in.ext', dict(k, **(keys or {})), absent=absent)
            elif n.endswith('hdr'):
                v = R.header('in.' + n)
            elif n == 'input_dataset':
                v = dataset if dataset is not None else R.dataset([R.image('in.f%d' % k) for k in range(2)])
            elif n == 'input_hdulist':
                v = hdus(R, ('CTEXCAM', 'CTFPAM', 'CTFSAM') if cls == 'CoreThroughputCalibration' else ('EXTRA',))
            elif n == 'err':
                v = R.array('in.err', (1,) + tuple(sh))
            elif i == 0 and cls == 'DetectorParams':
                v = R.I.new(R.st, FakeNode(), 'dict', k='root', items={('str', 'GAINMAX'): (R.sym('in.GAINMAX'), 'y')})
            elif n in ('dq', 'ptc') or i == 0:
                v = R.array('in.' + n, ('NK', 2) if n == 'ptc' else sh, lin='in.dq' if n == 'dq' else None,
                            dtype='uint16' if n == 'dq' else None)
            else:
                continue
            kw[n] = v
    return kw
