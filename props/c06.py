"""DQ flags only accumulate: no step clears a flag that is set, and steps that use a flagged calibration add its flags."""
from .common import *
from .c02 import frames_of

# steps whose frames are not pixel by pixel those they were given
NEW_PIXELS = ('do_psf_subtraction', 'northup', 'combine_subexposures', 'get_pc_mean')
# flags of these products must be set in the result: step -> parameter -> which planes
ADDS = {'dark_subtraction': {('dark', 'Dark'): ('dark.dq',)},
        'correct_bad_pixels': {('bp_mask', 'BadPixelMap'): ('bp_mask.data',)}}


def inputs_of(R, v):
    """(tag, name) of the frames of a dataset argument, or of an image argument."""
    out = []
    for x in v.objs:
        o = R.st.heap[x]
        if o.kind != 'inst' or o.cls is None:
            continue
        if R.st.heap[o.cls].extra.name == 'Dataset':
            out += frames_of(R, v)
        elif 'dq' in o.attrs:
            out.append(x)
    return out


def flagged_data(R, a):
    """The pixels of a bad-pixel map are flags as well."""
    for k, v in a.items():
        for x in v.objs:
            o = R.st.heap[x]
            if o.kind == 'inst' and o.cls is not None and R.st.heap[o.cls].extra.name == 'BadPixelMap':
                for d in o.attrs['data'].objs:
                    do = R.st.heap[d]
                    R.st.heap[d] = do.repl(lin=frozenset((k + '.data',)), dtype='uint8')


def task(ctx, it):
    name = it
    node = find(ctx, name)
    first = args.params(ctx.repo, node)[0].name
    res = []
    for ch in args.choices(ctx.repo, node):
        got = {}

        def before(R, a):
            flagged_data(R, a)
            got['n'] = len(inputs_of(R, a[first])) if first in a else 0
        for nf in (2, 3) if ctx.tier == 'thorough' else (2,):
            R, out = run_root(ctx, name, choose=ch, before=before, nframes=nf)
            if out is None:
                continue
            fr = inputs_of(R, out)
            opt = {k: v if isinstance(v, str) else str(v) for k, v in ch.items()}
            rows = []
            for f in fr:
                o = R.st.heap[f]
                rows.append([(sorted(R.st.heap[x].lin) if R.st.heap[x].lin is not None else None)
                             for x in o.attrs['dq'].objs if R.st.heap[x].kind == 'array'])
            res.append((first, opt, got.get('n', 0), rows))
    return res


def check(ctx):
    creators = entry_points(ctx, ('creators',), extra_steps=False)
    items = []
    for f in entry_points(ctx, ('steps',)):
        if f in creators or f.split('.')[-1] in NEW_PIXELS:
            continue
        ps = args.params(ctx.repo, find(ctx, f))
        if ps and ps[0].classes:
            items.append(f)
    for name, r in results(ctx, items, ctx.pmap(task, items)):
        base, where = name.split('.')[-1], ctx.repo.loc(find(ctx, name))
        ctx.count('steps')
        for first, opt, n, rows in r:
            ctx.count('option_combinations')
            if len(rows) != n:
                ctx.count('results_with_other_frames')
                continue
            for i, row in enumerate(rows):
                own = {'%s.f%d.dq' % (first, i), '%s.dq' % first}
                for lin in row:
                    if lin is None:
                        ctx.count('planes_not_followed'); ctx.skipped.append('%s: plane of frame %d' % (name, i))
                        continue
                    ctx.count('dq_planes')
                    if not own & set(lin):
                        ctx.add('%s|clears' % short(name), '%s can clear DQ flags that are set in the frames it is given%s'
                                % (short(name), note(opt)), where)
                    for (p, c), tags in ADDS.get(base, {}).items():
                        if opt.get(p, c) == c:
                            ctx.count('calibration_flags')
                            for t in tags:
                                if t not in lin:
                                    ctx.add('%s|%s' % (short(name), t), '%s does not set the flags of its %s%s'
                                            % (short(name), p, note(opt)), where)
    ctx.need('dq_planes', 60)
    ctx.need('calibration_flags', 4)
    ctx.explain.append('Each DQ plane carries the set of planes whose flags are sure to be in it; bitwise or, copies, stores under a mask '
                       'and widening casts keep them, other operations lose them.')


def note(opt):
    return ' (with %s)' % ', '.join('%s=%s' % kv for kv in sorted(opt.items())) if opt else ''
