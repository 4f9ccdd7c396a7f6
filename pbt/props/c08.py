"""Evaluation points: defaults, grids and shapes"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, equal, ensure, warm, within   # noqa

ID = 'C08'


def edges_of(kde, ndim, flat):
    pts = kde.points
    if ndim == 1 and flat:
        ensure(np.ndim(pts) == 1, 'default points of 1D data are %dD', np.ndim(pts))
        return [np.asarray(pts)]
    ensure(len(pts) == ndim, '%d sets of points for %d dimensions', len(pts), ndim)
    return [np.asarray(pp) for pp in pts]


def check_default(case):
    su = gen.Setup(case['kde'])
    flat = case['flat']
    kw = {}
    want_lo, want_hi = [], []
    for dd in range(su.ndim):
        want_lo.append(None)
        want_hi.append(None)
    mode = case['mode']
    if mode == 'reflect':
        refl = []
        for dd in range(su.ndim):
            lo, hi = su.data[dd].min() - 0.3 * su.widths[dd], su.data[dd].max() + 0.4 * su.widths[dd]
            if case['zero'] and su.data[dd].min() > 0:
                lo = 0
            elif case['zero'] and su.data[dd].max() < 0:
                hi = 0.0
            rr = [[lo, hi], [lo, None], [None, hi], None][(case['seed'] + dd) % 4]
            refl.append(rr)
            if rr is not None:
                want_lo[dd], want_hi[dd] = rr
        if all(rr is None for rr in refl):
            raise gen.Skip()
        kw['reflect'] = refl
    elif mode == 'extrema':
        ext = [[su.data[dd].min() - 1.5 * su.widths[dd], su.data[dd].max() + 2.5 * su.widths[dd]] for dd in range(su.ndim)]
        for dd in range(su.ndim):
            if case['zero'] and su.data[dd].min() > 0:
                ext[dd][0] = 0.0 if case['seed'] % 2 else 0
            elif case['zero'] and su.data[dd].max() < 0:
                ext[dd][1] = 0
        kw['extrema'] = ext[0] if (su.ndim == 1 and flat) else ext
        for dd in range(su.ndim):
            want_lo[dd], want_hi[dd] = ext[dd]
    kde = su.kde(flat=flat, **kw)
    edges = edges_of(kde, su.ndim, flat)
    for dd, ee in enumerate(edges):
        ensure(ee.ndim == 1 and ee.size >= 4 and np.all(np.isfinite(ee)), 'default points %s', ee)
        dx = np.diff(ee)
        ensure(np.all(dx > 0), 'default points are not increasing')
        close(dx, np.full(dx.size, (ee[-1] - ee[0]) / dx.size), 1e-6, 1e-9 * np.abs(ee).max(), 'spacing of default points')
        lo, hi = su.data[dd].min(), su.data[dd].max()
        wid = su.widths[dd]
        if want_lo[dd] is not None:
            close(ee[0], want_lo[dd], 1e-9, 1e-6 * wid, 'lowest default point')
        else:
            ensure(ee[0] <= lo - (wid * (1 - 1e-6) if su.finite else 0), 'default points do not span the distribution: %s > %s', ee[0], lo)
            ensure(ee[0] >= lo - 12 * wid, 'default points span much more than the distribution')
        if want_hi[dd] is not None:
            close(ee[-1], want_hi[dd], 1e-9, 1e-6 * wid, 'highest default point')
        else:
            ensure(ee[-1] >= hi + (wid * (1 - 1e-6) if su.finite else 0), 'default points do not span the distribution: %s < %s', ee[-1], hi)
            ensure(ee[-1] <= hi + 12 * wid, 'default points span much more than the distribution')
    if np.prod([ee.size for ee in edges]) * su.ndata > 4e6:
        return True, su.labels() + ['mode=' + mode, 'too many points for the density']
    back, vals = kde.density(probability=case['probability'])
    shape = tuple(ee.size for ee in edges)
    ensure(np.shape(vals) == shape, 'density at default points has shape %s, expected %s', np.shape(vals), shape)
    bb = [back] if (su.ndim == 1 and np.ndim(back) == 1) else back
    ensure(len(bb) == su.ndim and all(np.array_equal(x1, x2) for x1, x2 in zip(bb, edges)), 'returned points are not the default points')
    rng = np.random.RandomState(case['seed'])
    idx = np.unravel_index(rng.randint(vals.size, size=15), shape)
    pts = np.array([ee[ii] for ee, ii in zip(edges, idx)])
    direct = kde.density(pts, probability=case['probability'])[1]
    close(vals[idx], direct, 1e-11, 0, 'density at default points, relative to the density of the same points')
    return True, su.labels() + ['mode=' + mode]


def check_given(case):
    """Points chosen at construction: counts, or edges"""
    su = gen.Setup(case['kde'])
    flat = case['flat']
    rng = np.random.RandomState(case['seed'])
    nums = case['nums'][:su.ndim]
    mode = case['mode']
    auto = edges_of(su.kde(flat=flat), su.ndim, flat)
    if mode == 'count':
        arg, sizes = nums[0], [nums[0] + 1] * su.ndim
    elif mode == 'counts':
        if su.ndim == 1:
            raise gen.Skip()
        arg, sizes = nums, [nn + 1 for nn in nums]
    else:
        given = [np.sort(rng.uniform(su.data[dd].min(), su.data[dd].max(), nums[dd] + 2)) for dd in range(su.ndim)]
        arg = given[0] if (su.ndim == 1 and flat) else given
        sizes = None
    kde = su.kde(flat=flat, points=arg)
    got = edges_of(kde, su.ndim, flat)
    for dd in range(su.ndim):
        if sizes is None:
            ensure(np.array_equal(got[dd], given[dd]), 'given points are not used')
        else:
            ensure(got[dd].size == sizes[dd], '%d points, expected %d', got[dd].size, sizes[dd])
            wid = su.widths[dd]
            close(got[dd][[0, -1]], auto[dd][[0, -1]], 1e-9, 1e-6 * wid, 'extent of the points')
    vals = kde.density()[1]
    ensure(np.shape(vals) == tuple(gg.size for gg in got), 'shape of density %s', np.shape(vals))
    # the second use is the same
    again = edges_of(kde, su.ndim, flat)
    ensure(all(np.array_equal(aa, bb) for aa, bb in zip(got, again)), 'default points change when used again')
    return True, su.labels() + ['mode=' + mode]


def check_shapes(case):
    """Shapes of the results, and equivalence of a grid with the same points listed one by one"""
    su = gen.Setup(case['kde'])
    kde = su.kde(flat=case['flat'])
    mm = case['m']
    pts = su.points(case['seed'], mm)
    back, vals = kde.density(pts)
    ensure(np.shape(vals) == (mm,), 'shape %s for %d points', np.shape(vals), mm)
    if su.ndim == 1:
        b1, v1 = kde.density(pts[0])
        ensure(np.shape(v1) == (mm,) and np.shape(b1) == (mm,), 'shapes %s, %s for 1D points', np.shape(b1), np.shape(v1))
        equal(v1, vals, 'density at 1D points')
        b2, v2 = kde.density(pts[0].tolist())
        equal(v2, vals, 'density at a list of points')
    edges = [pts[dd, :case['nums'][dd]] for dd in range(su.ndim)]
    if su.ndim <= 3:
        gpts, gvals = kde.density(edges, grid=True)
        ensure(np.shape(gvals) == tuple(len(ee) for ee in edges), 'shape of the grid %s', np.shape(gvals))
        mesh = np.array([xx.ravel() for xx in np.meshgrid(*edges, indexing='ij')])
        close(np.ravel(gvals), kde.density(mesh)[1], 1e-12, 0, 'density on a grid, relative to the same points in a list')
    return mm > 1, su.labels() + ['m=%d' % mm]


few = dict(flat=st.booleans(), seed=gen.seeds)
SUBS = [
    Sub('default', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 3, 1, 15, 300), mode=gen.choice('plain', 'plain', 'reflect', 'extrema', 'extrema'), zero=st.booleans(),
                                              probability=st.booleans(), **few)), check_default, 200, 3000, rule='each case'),
    Sub('given', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 3, 1, 15), mode=gen.choice('count', 'counts', 'edges'),
                                            nums=st.lists(st.integers(3, 15), min_size=3, max_size=3), **few)), check_given, 250, rule='each case'),
    Sub('shapes', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 15), m=gen.choice(1, 1, 2, 3, 4, 5, 17),
                                             nums=st.lists(st.integers(1, 4), min_size=4, max_size=4), **few)), check_shapes, 400,
        rule='more than a single point'),
]
