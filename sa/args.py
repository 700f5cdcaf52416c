"""Arguments for analysis roots, derived from documented parameter types."""
import ast
import re
from .core import *
from .roots import Run, FakeNode

NAME_TYPES = {'input_dataset': 'Dataset', 'dataset': 'Dataset', 'detector_params': 'DetectorParams',
              'noise_maps': 'DetectorNoiseMaps', 'k_gain': 'KGain', 'flat_field': 'FlatField', 'bp_mask': 'BadPixelMap',
              'fluxcal_factor': 'FluxcalFactor', 'non_lin_correction': 'NonLinearityCalibration',
              'astrom_calibration': 'AstrometricCalibration', 'pump_trap_cal': 'TrapCalibration',
              'corethroughput_cal': 'CoreThroughputCalibration', 'flux_cal': 'FluxcalFactor'}
ALIASES = {'NonLinearityCorrection': 'NonLinearityCalibration', 'FluxCalibration': 'FluxcalFactor',
           'image': 'Image', 'dataset': 'Dataset'}


class Param:
    __slots__ = ('name', 'classes', 'scalar', 'default', 'doc', 'has_default')


def classes_of(repo):
    """Names of the data classes defined in the data module (resolved from the source)."""
    out = []
    for n in repo.trees['corgidrp.data'].body:
        if isinstance(n, ast.ClassDef):
            out.append(n.name)
    return out


def params(repo, node, mod=None):
    doc = ast.get_docstring(node) or ''
    cls = classes_of(repo)
    a = node.args
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    out = []
    for i, p in enumerate(pos):
        q = Param()
        q.name = p.arg
        m = re.search(r'^\s*%s\s*\(([^)]*)\)?' % re.escape(p.arg), doc, re.M)
        q.doc = m.group(1) if m else ''
        toks = re.findall(r'[A-Za-z_][A-Za-z_0-9]*', q.doc)
        q.classes = []
        for t in toks:
            if t in ('dataset', 'image') and t != q.doc.strip().split('.')[-1]:
                continue
            t = ALIASES.get(t, t)
            if t in cls and t not in q.classes:
                q.classes.append(t)
        if not q.classes and p.arg in NAME_TYPES and NAME_TYPES[p.arg] in cls:
            q.classes = [NAME_TYPES[p.arg]]
        low = q.doc.lower()
        q.scalar = 'bool' if 'bool' in low else 'str' if 'str' in low and 'list' not in low and 'astropy' not in low else \
            'num' if re.search(r'\b(int|float)\b', low) and not re.search(r'array|list|tuple|dict', low) else \
            'array' if 'array' in low else 'dict' if 'dict' in low else 'tuple' if 'tuple' in low and 'list' not in low else \
            'list' if 'list' in low else None
        j = i - (len(pos) - nd)
        q.has_default = j >= 0
        q.default = a.defaults[j] if j >= 0 else None
        out.append(q)
    return out


CAL_SHAPES = {'NonLinearityCalibration': ('NLR', 'NLC'), 'KGain': (1, 1), 'DetectorNoiseMaps': (3, 'FR', 'FC'),
              'TrapCalibration': ('NT', 10), 'AstrometricCalibration': ('NA',), 'DetectorParams': (1,),
              'FluxcalFactor': (1, 1), 'FpamFsamCal': (2, 2, 2), 'CoreThroughputCalibration': ('NP', 'PR', 'PC'),
              'NDFilterSweetSpotDataset': ('NN', 3), 'Dark': ('R', 'C'), 'FlatField': ('R', 'C'), 'BadPixelMap': ('R', 'C')}


def product(run, cls, tag, shape=None):
    """An existing calibration product: attributes built without running the type-specific constructor checks."""
    I, st = run.I, run.st
    sh = shape or CAL_SHAPES.get(cls, ('R', 'C'))
    r = run.image(tag, 'Image', shape=sh, ext={'DATATYPE': cls, 'DATALVL': 'CAL'})
    c = run.cls(cls)
    oid = next(iter(r.objs))
    o = st.heap[oid]
    at = dict(o.attrs)
    if cls == 'DetectorNoiseMaps':
        for k in ('FPN_map', 'CIC_map', 'DC_map', 'FPN_err', 'CIC_err', 'DC_err'):
            at[k] = run.array(tag + '.' + k, ('FR', 'FC'))
        for k in ('bias_offset', 'bias_offset_err'):
            at[k] = AV(consts=frozenset((('Sym', Sym(tag + '.' + k)),)), tags=frozenset((tag + '.' + k,)))
    if cls == 'DetectorParams':
        at['params'] = I.new(st, FakeNode(), 'dict', k='root', items={}, elem=run.sym(tag + '.params'))
    if cls == 'CoreThroughputCalibration':
        for k in ('ct_excam', 'ct_fpam', 'ct_fsam'):
            at[k] = run.array(tag + '.' + k, ('K3', 'NP') if k == 'ct_excam' else ('N3',))
    if cls == 'NDFilterSweetSpotDataset':
        for k in ('od_values', 'x_values', 'y_values'):
            at[k] = run.array(tag + '.' + k, ('NN',))
    if cls == 'AstrometricCalibration':
        for k in ('boresight', 'distortion_coeffs'):
            at[k] = run.array(tag + '.' + k, ('NA',))
        for k in ('platescale', 'northangle'):
            at[k] = run.sym(tag + '.' + k)
    if cls == 'KGain':
        at['_kgain'] = run.sym(tag + '.value')
        at['_kgain_error'] = run.sym(tag + '.error')
        at['error'] = run.sym(tag + '.error')
        at['ptc'] = run.array(tag + '.ptc', ('NK', 2))
    if cls == 'FluxcalFactor':
        at['filter'] = run.sym(tag + '.filter')
        at['nd_filter'] = run.sym(tag + '.nd_filter')
        for k, n in (('fluxcal_fac', '.fac'), ('fluxcal_err', '.facerr')):
            at[k] = AV(consts=frozenset((('Sym', Sym(tag + n)),)), tags=frozenset((tag + n,)))
    for k in self_attrs(run.I.repo, cls):
        if k not in at:
            at[k] = run.sym(tag + '.' + k)
    st.heap[oid] = o.repl(cls=next(iter(c.objs)), attrs=at)
    return r


def self_attrs(repo, cls):
    """Attributes the methods of a data class assign to self."""
    out = set()
    for n in repo.trees['corgidrp.data'].body:
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == 'self':
                    out.add(x.attr)
            props = {f.name for f in n.body if isinstance(f, ast.FunctionDef)}
            out -= props
    return sorted(out)


# extra facts about particular arguments: function name -> keyword arguments of build()
SETUP = {
    'calibrate_darks_lsq': {'nframes': 5},
    'compute_flux_ratio_noise': {'hdus': ('KL_THRU', 'CT_THRU')},
    'get_pc_mean': {'over': {'bin_size': None}},
    'create_nd_sweet_spot_dataset': {'over': {'aggregated_sweet_spot_data':
                                              lambda r: r.array('arg:aggregated_sweet_spot_data', ('NS', 3))}},
}


def build(run, repo, node, over=None, ext=None, pri=None, shape=('R', 'C'), nframes=2, err_layers=1, cal_any=True, hdus=(),
          setup=True, choose=None):
    """Argument values for a repository function.  `over`: parameter name -> AV (or callable(run))."""
    kw = {}
    over = over or {}
    extra = SETUP.get(node.name, {}) if setup else {}
    nframes = max(nframes, extra.get('nframes', nframes))
    hdus = tuple(hdus) + tuple(extra.get('hdus', ()))
    over = dict(extra.get('over', {}), **over)

    def with_hdus(im, tag):
        for h in hdus:
            run.call(run.attr(im, 'add_extension_hdu'), [const(h)], {'data': run.array(tag + '.' + h, (4, 'NH', 2)),
                                                                   'header': run.header(tag + '.' + h + '.h')})
        return im
    for p in params(repo, node):
        if p.name in over:
            v = over[p.name]
            if v is None:
                continue
            kw[p.name] = v(run) if callable(v) else v
            continue
        alts = []
        pick = (choose or {}).get(p.name)
        if pick is not None and not isinstance(pick, str):
            kw[p.name] = pick
            continue
        for c in ([pick] if pick else p.classes):
            if c == 'Dataset':
                fr = [with_hdus(run.image('%s.f%d' % (p.name, i), ext=ext, pri=pri, shape=shape, err_layers=err_layers),
                                '%s.f%d' % (p.name, i)) for i in range(nframes)]
                alts.append(run.dataset(fr))
            elif c == 'Image':
                alts.append(run.image(p.name, ext=ext, pri=pri, shape=shape))
            else:
                alts.append(product(run, c, p.name))
        if alts:
            if not pick and p.has_default and isinstance(p.default, ast.Constant) and p.default.value is None:
                alts.append(NONE)
            v = jall(alts)
        else:
            t = frozenset(('arg:' + p.name,))
            if p.scalar == 'bool':
                v = AV(consts=BOOL.consts, tags=t)
            elif p.scalar in ('str', 'num'):
                v = unknown(t)
                if p.has_default and isinstance(p.default, ast.Constant) and p.default.value is None:
                    v = jav(v, NONE)
            elif p.scalar == 'array':
                v = run.array('arg:' + p.name, ('N_' + p.name,))
                if p.has_default and isinstance(p.default, ast.Constant) and p.default.value is None:
                    v = jav(v, NONE)
            elif p.has_default:
                continue
            else:
                v = unknown(t)
        kw[p.name] = run.mark(p.name, v)
    return kw


def choices(repo, node, cap=8):
    """Combinations of the alternatives a caller has: the class of a product, the value of a boolean option."""
    dims = []
    for p in params(repo, node):
        if p.name in SETUP.get(node.name, {}).get('over', {}):
            continue
        none = p.has_default and isinstance(p.default, ast.Constant) and p.default.value is None
        if p.classes and (len(p.classes) > 1 or none):
            dims.append([(p.name, c) for c in p.classes] + ([(p.name, NONE)] if none else []))
        elif not p.classes and (p.scalar == 'bool' or p.has_default and isinstance(p.default, ast.Constant)
                                and isinstance(p.default.value, bool)):
            dims.append([(p.name, TRUE), (p.name, FALSE)])
    out = [{}]
    for d in dims:
        if len(out) * len(d) <= cap:
            out = [dict(o, **{k: v}) for o in out for k, v in d]
    return out
