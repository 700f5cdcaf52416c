"""Frames are processed independently: nothing of one frame of a dataset ends up in another."""
from .common import *
from .c02 import frames_of
from .c06 import note

# combining steps, whose frames are made from several, and steps that regroup frames
JOINT = ('do_psf_subtraction', 'combine_subexposures', 'get_pc_mean', 'sort_pupilimg_frames', 'find_star')
# results measured on all frames together and written to every header: the pixels still have to be each frame's own
JOINT_HEADER = {'determine_flux': None}
# a dark synthesized from noise maps is made once, for frames that must agree in commanded gain and exposure time; so must
# those a dark is subtracted from
ALLOWED = {('dark_subtraction', 'Dark'): ('EXPTIME', 'EMGAIN_C', 'KGAINPAR'),
           ('dark_subtraction', 'DetectorNoiseMaps'): ('EXPTIME', 'EMGAIN_A', 'EMGAIN_C', 'EMGAIN_M', 'KGAINPAR')}
FIELDS = ('data', 'err', 'dq', 'pri_hdr', 'ext_hdr', 'err_hdr', 'dq_hdr', 'filename')


def leaks(R, first, i, o, allowed=()):
    """Places of result frame i that other frames of the input flow into, by value or by a branch taken."""
    out = []
    own = '%s.f%d.' % (first, i)
    pat = re.compile(r'%s\.f\d+\.' % re.escape(first))

    def foreign(av):
        t, c = R.I.deep(R.st, av)
        return sorted(x for x in t | c if pat.match(x) and not x.startswith(own) and x.split('.')[-1] not in allowed)
    for a in FIELDS:
        v = o.attrs.get(a)
        if v is None:
            continue
        for x in v.objs:
            xo = R.st.heap[x]
            if xo.kind != 'header':
                continue
            for k, (kv, p) in xo.items.items():
                f = foreign(kv) if p != 'n' else ()
                if f:
                    out.append((a, k, f))
            f = sorted(t for t in xo.escaped if pat.match(t) and not t.startswith(own))
            if f:
                out.append((a, '*', f))
        if not any(R.st.heap[x].kind == 'header' for x in v.objs):
            f = foreign(v)
            if f:
                out.append((a, '', f))
    return out


def named(R, ds):
    for i, f in enumerate(frames_of(R, ds)):
        o = R.st.heap[f]
        nm = const('CGI_frame%d.fits' % i).with_tags(o.attrs['filename'].tags)
        R.st.heap[f] = o.repl(attrs=dict(o.attrs, filename=nm))


def task(ctx, name):
    node = find(ctx, name)
    first = args.params(ctx.repo, node)[0].name
    base = name.split('.')[-1]
    res = []
    for ch in args.choices(ctx.repo, node, 8 if ctx.tier == 'quick' else 64):
        opt = {k: v if isinstance(v, str) else str(v) for k, v in ch.items()}
        allowed = ()
        for (b, c), keys in ALLOWED.items():
            if b == base and c in opt.values():
                allowed = keys
        for nf in (2,) if ctx.tier == 'quick' else (2, 3):
            if base == 'frame_select' and ch.get('discard_bad') == TRUE:
                continue        # keeps some frames only: which result frame was which is not known
            R, out = run_root(ctx, name, choose=ch, nframes=nf, before=lambda R, a: named(R, a[first]))
            if out is None:
                continue
            res.append((opt, [leaks(R, first, i, R.st.heap[f], allowed) for i, f in enumerate(frames_of(R, out))]))
    return res


def check(ctx):
    creators = entry_points(ctx, ('creators',), extra_steps=False)
    items = []
    for f in entry_points(ctx, ('steps',)):
        ps = args.params(ctx.repo, find(ctx, f))
        if f in creators or f.split('.')[-1] in JOINT or not ps or 'Dataset' not in ps[0].classes:
            continue
        items.append(f)
    for name, r in results(ctx, items, ctx.pmap(task, items)):
        base, where = name.split('.')[-1], ctx.repo.loc(find(ctx, name))
        ctx.count('steps')
        for opt, rows in r:
            ctx.count('option_combinations')
            for i, row in enumerate(rows):
                ctx.count('frames')
                for a, k, f in row:
                    if a.endswith('hdr') and base in JOINT_HEADER and (JOINT_HEADER[base] is None or k in JOINT_HEADER[base]):
                        continue
                    what = '%s%s' % (a, '[%s]' % k if k else '')
                    ctx.add('%s|%s' % (short(name), what), '%s lets %s decide the %s of another frame%s'
                            % (short(name), ', '.join(sorted({x.split('.', 2)[-1] for x in f})[:4]), what, note(opt)), where)
    ctx.need('frames', 60)
    ctx.explain.append('Each step is interpreted on frames whose every pixel array, header and card carries a mark of its frame; '
                       'no result frame may carry the mark of another frame, neither in a value nor in a condition it depends on.')
