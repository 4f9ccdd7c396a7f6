"""Projection onto some of the parameters"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, warm, within   # noqa

ID = 'C05'


def pick(case, ndim):
    order = [pp for pp in case['order'] if pp < ndim]
    return order[:1 + case['num'] % len(order)]


def flavor(params, case, ndim):
    vals = [pp - ndim if (case['negative'] >> ii) & 1 else pp for ii, pp in enumerate(params)]
    kind = case['form']
    if len(vals) == 1 and kind in ('int', 'npint'):
        return vals[0] if kind == 'int' else np.int64(vals[0])
    if kind == 'array':
        return np.array(vals)
    if kind == 'tuple':
        return tuple(vals)
    return list(vals)


def check_points(case):
    su = gen.Setup(case['kde'])
    params = pick(case, su.ndim)
    arg = flavor(params, case, su.ndim)
    pts = su.points(case['seed'], 25)[params]
    sub = su.matrix[np.ix_(params, params)]
    data = su.data[params]
    refl = None
    bounds = [(-np.inf, np.inf)] * len(params)
    kw = {}
    if case['reflect'] != 'none':
        full = []
        for dd in range(su.ndim):
            lo, hi = su.data[dd].min() - 0.3 * su.widths[dd], su.data[dd].max() + 0.2 * su.widths[dd]
            full.append([[lo, hi], [lo, None], [None, hi], None][(case['seed'] + dd) % 4])
        if case['only']:
            # boundaries only in (one of) the parameters: often not the first
            which = params[(case['seed'] // 4) % len(params)]
            full = [ff if dd == which else None for dd, ff in enumerate(full)]
        bnd = [tuple(np.array([-np.inf, np.inf])[ii] if (ff is None or ff[ii] is None) else ff[ii] for ii in range(2)) for ff in full]
        if all(ff is None for ff in full):
            full[params[-1]] = [su.data[params[-1]].min(), None]
            bnd[params[-1]] = (su.data[params[-1]].min(), np.inf)
        if case['reflect'] == 'init':
            refl = full
            bounds = [bnd[pp] for pp in params]
        elif case['reflect'] == 'off':
            refl = full
            kw = dict(reflect=False)
        else:
            kw = dict(reflect=[full[pp] for pp in params])
            bounds = [bnd[pp] for pp in params]
            refl = [[None, su.data[dd].max()] for dd in range(su.ndim)] if case['seed'] % 3 == 0 else None
    kde = su.kde(reflect=refl)
    parg = pts[0] if (len(params) == 1 and case['flat']) else pts
    back, vals = kde.density(parg, params=arg, probability=case['probability'], **kw)
    ensure(np.shape(vals) == (25,), 'shape of the values %s', np.shape(vals))
    # for a single parameter (given as an integer, or with 1D points) the points are 1D
    shape = (25,) if (np.ndim(parg) == 1 or np.isscalar(arg)) else (len(params), 25)
    ensure(np.shape(back) == shape, 'shape of the points %s, for params=%s', np.shape(back), arg)
    ensure(np.array_equal(np.ravel(back), np.ravel(parg)), 'returned points differ')
    scale = 1.0 / su.wts.sum() if case['probability'] else 1.0
    lo, hi = ref.reflected(pts, data, su.wts, sub, su.kname, bounds, 1e-6)
    peak = ref.peak(su.wts, sub, su.kname)
    within(vals, lo * scale, hi * scale, 1e-6, 1e-9 * peak * scale, 'density of params=%s' % (arg,))
    return len(params) < su.ndim or params != sorted(params), su.labels() + [
        'params=%d/%d' % (len(params), su.ndim), 'reflect=' + case['reflect'], 'form=' + case['form'],
        'ordered=%s' % (params == sorted(params))]


def check_grid(case):
    """Default evaluation points, and grids, for some of the parameters"""
    su = gen.Setup(case['kde'])
    params = pick(case, su.ndim)[:2]
    arg = flavor(params, case, su.ndim)
    kde = su.kde(points=case['nums'][:su.ndim] if case['seed'] % 2 else None)
    back, vals = kde.density(params=arg)
    want = [kde.points[pp] for pp in params]
    if len(params) == 1:
        ensure(len(back) == (len(want[0]) if np.isscalar(arg) else 1), 'shape of the default points of params=%s', arg)
        ensure(np.array_equal(np.ravel(back), want[0]), 'default points of params=%s', arg)
        ensure(np.shape(vals) == np.shape(want[0]), 'shape of values %s', np.shape(vals))
    else:
        ensure(len(back) == 2 and all(np.array_equal(bb, ww) for bb, ww in zip(back, want)), 'default points of params=%s', arg)
        ensure(np.shape(vals) == tuple(len(ww) for ww in want), 'shape of values %s, for edges %s', np.shape(vals), [len(ww) for ww in want])
    rng = np.random.RandomState(case['seed'])
    flat = rng.randint(vals.size, size=20)
    idx = np.unravel_index(flat, vals.shape)
    pts = np.array([ww[ii] for ww, ii in zip(want, idx)])
    sub = su.matrix[np.ix_(params, params)]
    lo, hi = ref.density(pts, su.data[params], su.wts, sub, su.kname, 1e-6)
    within(vals[idx], lo, hi, 1e-6, 1e-9 * ref.peak(su.wts, sub, su.kname), 'density of params=%s on a grid' % (arg,))
    return len(params) == 2 and params != sorted(params), su.labels() + ['params=%s' % len(params)]


def check_marginal(case):
    """Integrating the gaussian density over one parameter gives the projected density"""
    su = gen.Setup(case['kde'])
    keep = case['num'] % 2
    oth = 1 - keep
    kde = su.kde()
    pts = su.points(case['seed'], 4)[keep]
    cond = np.sqrt(su.matrix[oth, oth] - su.matrix[0, 1]**2 / su.matrix[keep, keep])
    lo, hi = su.data[oth].min() - 9 * su.widths[oth], su.data[oth].max() + 9 * su.widths[oth]
    num = int((hi - lo) / (0.5 * cond)) + 2
    if num > 20000:
        raise gen.Skip()
    grid = np.linspace(lo, hi, num)
    arg = [None, None]
    arg[keep], arg[oth] = pts, grid
    full = kde.density(arg, grid=True)[1]
    marg = full.sum(axis=oth) * (grid[1] - grid[0])
    proj = kde.density(pts, params=keep)[1]
    close(proj, marg, 1e-5, 1e-7 * ref.peak(su.wts, su.matrix[[keep]][:, [keep]], 'gaussian'), 'projected density')
    return abs(su.matrix[0, 1]) > 0, su.labels()


common = dict(order=st.permutations([0, 1, 2, 3, 4]), num=st.integers(0, 4), negative=gen.choice(0, 0, 0, 1, 2, 3),
              form=gen.choice('int', 'npint', 'list', 'array', 'tuple'), seed=gen.seeds)
small = st.lists(st.integers(4, 12), min_size=5, max_size=5)
SUBS = [
    Sub('points', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 5, 1, 30), reflect=gen.choice('none', 'init', 'off', 'density'),
                                             probability=st.booleans(), flat=st.booleans(), only=gen.choice(False, True), **common)), check_points, 700,
        rule='fewer parameters than dimensions, or in a different order'),
    Sub('grid', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 4, 1, 15), nums=small, **common)), check_grid, 120, 1500,
        rule='two parameters, not in order'),
    Sub('marginal', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 2, 1, 15, kernels=['gaussian']), num=st.integers(0, 1), seed=gen.seeds)),
        check_marginal, 100, rule='the parameters are correlated'),
]
