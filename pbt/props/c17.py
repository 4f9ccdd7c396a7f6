"""Integration with the trapezoid rule"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, grids
from .util import Sub, close, ensure, repr_exact   # noqa

ID = 'C17'


def build(case):
    spec = case['grid']
    edges = grids.make_edges(spec)
    vals = np.asarray(grids.make_values(spec, spec['shape']))
    if case['sign']:
        vals = vals - np.mean(vals)
    return spec, edges, vals


def ref_mass(vals, edges, axes):
    out = np.asarray(vals, float)
    for dd in axes:
        out = np.moveaxis(out, dd, -1)
        out = 0.5 * (out[..., 1:] + out[..., :-1]) * np.diff(np.asarray(edges[dd], float))
        out = np.moveaxis(out, -1, dd)
    return out


def axes_of(case, ndim):
    axes = sorted(set(aa for aa in case['axes'] if aa < ndim))
    form = case['form']
    if form == 'none' or not axes:
        return None, list(range(ndim))
    if form == 'int':
        return axes[0], axes[:1]
    arg = axes[::-1] if form == 'reversed' else axes
    return (np.array(arg) if form == 'array' else list(arg)), axes


def args_of(case, spec, edges, vals):
    eds = grids.as_given(spec, edges)
    if len(edges) == 1 and case['flat']:
        eds = eds[0]
    return (vals.tolist() if spec['aslist'] else vals), eds


def check_mass(case):
    from kalepy import utils
    spec, edges, vals = build(case)
    ndim = len(edges)
    arg, axes = axes_of(case, ndim)
    va, eds = args_of(case, spec, edges, vals)
    before = repr_exact([va, eds])
    got = utils.trapz_dens_to_mass(va, eds, axis=arg)
    ensure(before == repr_exact([va, eds]), 'the inputs were changed')
    want = ref_mass(vals, edges, axes)
    top = np.abs(ref_mass(np.abs(vals), edges, axes)).max()
    close(got, want, 1e-9, 1e-13 * top, 'trapz_dens_to_mass(axis=%s)' % (arg,))
    tot = utils.trapz_nd(va, eds, axis=arg)
    close(tot, want.sum(axis=tuple(axes)), 1e-9, 1e-11 * top * want.size, 'trapz_nd(axis=%s)' % (arg,))
    return ndim > 1 and len(set(spec['shape'])) > 1, ['D=%d' % ndim, 'axes=%d' % len(axes), case['form'], spec['kind']]


def check_cumulative(case):
    from kalepy import utils
    spec, edges, vals = build(case)
    ndim = len(edges)
    va, eds = args_of(case, spec, edges, vals)
    axis = None if case['form'] == 'none' else min(case['axes'][0], ndim - 1)
    axes = list(range(ndim)) if axis is None else [axis]
    want = ref_mass(vals, edges, axes)
    for dd in axes:
        want = np.cumsum(want, axis=dd)
    before = repr_exact([va, eds])
    top = np.abs(ref_mass(np.abs(vals), edges, axes)).max() * want.size
    close(utils.cumtrapz(va, eds, prepend=False, axis=axis), want, 1e-9, 1e-13 * top, 'cumtrapz(prepend=False, axis=%s)' % axis)
    got = utils.cumtrapz(va, eds, axis=axis)
    padded = np.pad(want, [(1, 0) if dd in axes else (0, 0) for dd in range(ndim)])
    close(got, padded, 1e-9, 1e-13 * top, 'cumtrapz(axis=%s)' % axis)
    ensure(before == repr_exact([va, eds]), 'the inputs were changed')
    # the last value is the integral
    last = tuple(-1 if dd in axes else slice(None) for dd in range(ndim))
    close(got[last], utils.trapz_nd(va, eds, axis=axis), 1e-8, 1e-12 * top, 'the end of cumtrapz, and trapz_nd')
    if not case['sign']:
        for dd in axes:
            ensure(np.all(np.diff(got, axis=dd) >= -1e-13 * top), 'cumtrapz decreases, along dimension %d', dd)
    # sums
    sums = vals.copy()
    for dd in axes:
        sums = np.cumsum(sums, axis=dd)
    close(utils.cumsum(va, axis=axis), sums, 1e-10, 1e-13 * max(np.abs(vals).sum(), 1e-300), 'cumsum(axis=%s)' % axis)
    ensure(before == repr_exact([va, eds]), 'the inputs were changed by cumsum')
    return ndim > 1 and len(set(spec['shape'])) > 1, ['D=%d' % ndim, 'axis=%s' % axis, spec['kind']]


def check_exact(case):
    """Exact for multi-linear functions, additive and linear"""
    from kalepy import utils
    spec, edges, vals = build(case)
    ndim = len(edges)
    rng = np.random.RandomState(spec['seed'])
    coef = rng.normal(size=[2] * ndim)

    def func(*xx):
        out = 0.0
        for idx in itertools.product([0, 1], repeat=ndim):
            out = out + coef[idx] * np.prod([xi ** ii for xi, ii in zip(xx, idx)], axis=0)
        return out
    grid = np.meshgrid(*[np.asarray(ee, float) for ee in edges], indexing='ij')
    ff = np.broadcast_to(func(*grid), spec['shape'])
    # every cell
    want = 0.0
    top = 0.0
    for idx in itertools.product([0, 1], repeat=ndim):
        tt = coef[idx]
        for dd, ii in enumerate(idx):
            ee = np.asarray(edges[dd], float)
            prim = (ee, ee ** 2 / 2.0)[ii]
            sh = [1] * ndim
            sh[dd] = -1
            tt = tt * np.diff(prim).reshape(sh)
        want = want + tt
        top = top + np.abs(tt)
    close(utils.trapz_dens_to_mass(ff, edges), np.broadcast_to(want, [ss - 1 for ss in spec['shape']]), 1e-8, 1e-10 * top.max(), 'mass of a multi-linear function')
    close(utils.trapz_nd(ff, edges), want.sum(), 1e-8, 1e-10 * top.sum(), 'integral of a multi-linear function')
    # dividing the grid does not change the integral
    cut = [np.unique(np.concatenate([ee, 0.5 * (ee[1:] + ee[:-1])])) for ee in [np.asarray(ed, float) for ed in edges]]
    fine = np.broadcast_to(func(*np.meshgrid(*cut, indexing='ij')), [len(cc) for cc in cut])
    close(utils.trapz_nd(fine, cut), want.sum(), 1e-8, 1e-10 * top.sum(), 'integral of a multi-linear function, on a finer grid')
    other = rng.normal(size=spec['shape'])
    close(utils.trapz_nd(vals + 2.5 * other, edges), utils.trapz_nd(vals, edges) + 2.5 * utils.trapz_nd(other, edges), 1e-9,
          1e-10 * (np.abs(vals) + 3 * np.abs(other)).max() * np.prod([float(ee[-1]) - float(ee[0]) for ee in edges]), 'the integral is not linear')
    return ndim > 1, ['D=%d' % ndim, spec['spacing']]


common = dict(sign=st.booleans(), flat=st.booleans(), axes=st.lists(st.integers(0, 5), min_size=1, max_size=3),
              form=gen.choice('none', 'int', 'list', 'array', 'reversed'))
SUBS = [
    Sub('mass', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 4, 6), grids.grid_spec(1, 4, 6), grids.grid_spec(1, 6, 3)), **common)), check_mass, 600, rule='several dimensions, of different sizes'),
    Sub('cumulative', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 4, 6), grids.grid_spec(1, 4, 6), grids.grid_spec(1, 6, 3)), **common)), check_cumulative, 600, rule='several dimensions, of different sizes'),
    Sub('large', st.fixed_dictionaries(dict(grid=grids.large_spec(), **common)), lambda case: (check_mass(case), check_cumulative(case))[1], 40, rule='several dimensions, of different sizes'),
    Sub('exact', st.fixed_dictionaries(dict(grid=grids.grid_spec(1, 3, 6), **common)), check_exact, 400, rule='several dimensions'),
]
