"""Cumulative distribution"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, kernel_cdf_1d, warm   # noqa

ID = 'C09'


def cumulative(vals, edges):
    """Integral of the multi-linear interpolation of `vals`, up to each point of the grid (normalized)"""
    out = np.asarray(vals, float)
    for dd, ee in enumerate(edges):
        out = np.moveaxis(out, dd, 0)
        mass = 0.5 * (out[1:] + out[:-1]) * np.diff(ee).reshape((-1,) + (1,) * (out.ndim - 1))
        out = np.concatenate([np.zeros((1,) + out.shape[1:]), np.cumsum(mass, axis=0)])
        out = np.moveaxis(out, 0, dd)
    return out / out[(-1,) * out.ndim]


def multilinear(grid, edges, pts):
    """Multi-linear interpolation, constant beyond the first and last points of each dimension"""
    idx, frac = [], []
    for ee, pp in zip(edges, pts):
        pp = np.clip(pp, ee[0], ee[-1])
        ii = np.clip(np.searchsorted(ee, pp, side='right') - 1, 0, ee.size - 2)
        idx.append(ii)
        frac.append((pp - ee[ii]) / (ee[ii + 1] - ee[ii]))
    out = 0.0
    for corner in itertools.product([0, 1], repeat=len(edges)):
        fac = 1.0
        for cc, ff in zip(corner, frac):
            fac = fac * (ff if cc else 1 - ff)
        out = out + fac * grid[tuple(ii + cc for ii, cc in zip(idx, corner))]
    return out


def reflect_of(case, su):
    if not case['reflect']:
        return None
    refl = []
    for dd in range(su.ndim):
        lo, hi = su.data[dd].min() - 0.3 * su.widths[dd], su.data[dd].max() + 0.2 * su.widths[dd]
        refl.append([[lo, hi], [lo, None], [None, hi], None][(case['seed'] + dd) % 4])
    return None if all(rr is None for rr in refl) else refl


def build(case):
    su = gen.Setup(case['kde'])
    flat = case['flat']
    rng = np.random.RandomState(case['seed'])
    kw = dict(reflect=reflect_of(case, su))
    mode = case['points']
    if mode == 'counts':
        kw['points'] = case['nums'][0] if su.ndim == 1 else case['nums'][:su.ndim]
    elif mode == 'edges':
        edges = []
        for dd in range(su.ndim):
            lo, hi = su.data[dd].min() - 2 * su.widths[dd], su.data[dd].max() + 2 * su.widths[dd]
            edges.append(np.unique(rng.uniform(lo, hi, case['nums'][dd] + 3)))
        kw['points'] = edges[0] if (su.ndim == 1 and flat) else edges
    elif su.ndim > 2:
        raise gen.Skip()
    return su, su.kde(flat=flat, **kw), kw


def check_grid(case):
    su, kde, kw = build(case)
    rng = np.random.RandomState(case['seed'] + 1)
    edges = kde.points
    edges = [np.asarray(edges)] if (su.ndim == 1 and np.ndim(edges) == 1) else [np.asarray(ee) for ee in edges]
    if np.prod([ee.size for ee in edges]) > case.get('most', 60000):
        raise gen.Skip()
    pdf = kde.pdf(edges[0] if su.ndim == 1 and case['flat'] else edges, grid=True)[1].reshape([ee.size for ee in edges])
    if not pdf.max() * np.prod([ee[-1] - ee[0] for ee in edges]) > 1e-6:
        raise gen.Skip()
    grid = cumulative(pdf, edges)
    if not np.isfinite(grid).all():
        raise gen.Skip()

    # random points, points of the grid, and outside
    num = [40, 1, 7, 400][case['seed'] % 4] if case['many'] else 40
    pts = np.array([rng.uniform(ee[0] - 0.1 * (ee[-1] - ee[0]), ee[-1] + 0.1 * (ee[-1] - ee[0]), num) for ee in edges])
    at = rng.uniform(size=pts.shape) < 0.3
    on = np.array([ee[rng.randint(ee.size, size=num)] for ee in edges])
    pts = np.where(at, on, pts)
    want = multilinear(grid, edges, pts)
    arg = pts[0] if (su.ndim == 1 and case['argflat']) else pts
    if case['aslist']:
        arg = arg.tolist()
    got = kde.cdf(arg)
    ensure(np.shape(got) == (num,), 'shape %s of the CDF, of %d points', np.shape(got), num)
    close(got, want, 1e-7, 1e-9, 'CDF')
    ensure(np.all((got >= 0) & (got <= 1 + 1e-12)), 'CDF outside of [0, 1]')

    # increasing along each dimension
    dim = case['seed'] % su.ndim
    line = np.repeat(pts[:, :1], 60, axis=1)
    ee = edges[dim]
    line[dim] = np.sort(rng.uniform(ee[0] - 0.2 * (ee[-1] - ee[0]), ee[-1] + 0.2 * (ee[-1] - ee[0]), 60))
    vals = kde.cdf(line[0] if (su.ndim == 1 and case['argflat']) else line)
    ensure(np.all(np.diff(vals) >= -1e-12), 'CDF decreases along dimension %d', dim)
    # outside
    span = [ee[-1] - ee[0] for ee in edges]
    extra = rng.uniform(size=(su.ndim, num))
    below_many = np.array([ee[0] - sp * 10 ** (4 * uu - 3) for ee, sp, uu in zip(edges, span, extra)])
    above = np.array([[ee[-1], ee[-1] + 0.5 * sp, ee[-1] + 1e3 * sp] for ee, sp in zip(edges, span)])
    below = np.repeat(np.array([[ee[-1]] for ee in edges]), 3, axis=1)
    below[dim] = [edges[dim][0], edges[dim][0] - 0.5 * span[dim], edges[dim][0] - 1e3 * span[dim]]
    close(kde.cdf(above[0] if su.ndim == 1 and case['argflat'] else above), np.ones(3), 1e-12, 0, 'CDF above the grid')
    close(kde.cdf(below[0] if su.ndim == 1 and case['argflat'] else below), np.zeros(3), 0, 1e-12, 'CDF below the grid')
    arg2 = below_many[0] if su.ndim == 1 and case['argflat'] else below_many
    close(kde.cdf(arg2), np.zeros(num), 0, 1e-12, 'CDF below the grid in every dimension')
    # calls do not depend on each other
    again = kde.cdf(arg)
    ensure(np.array_equal(again, got), 'repeating the CDF gives different values')
    other = su.kde(flat=case['flat'], **kw).cdf(arg)
    ensure(np.array_equal(other, got), 'the CDF depends on previous calls')
    return np.ptp(want) > 0.1, su.labels() + ['points=' + case['points'], 'reflect=%s' % (kw['reflect'] is not None)]


def check_exact(case):
    """On a fine grid, relative to the sum of the CDF of each kernel (diagonal smoothing matrices)"""
    spec = dict(case['kde'])
    spec['diagonal'] = True
    spec['bw'] = dict(spec['bw'], kind='vec' if spec['data']['d'] > 1 else 'scalar')
    su = gen.Setup(spec)
    num = [0, 4000, 160][su.ndim]
    edges, bounds = [], []
    for dd in range(su.ndim):
        xx, ww = su.data[dd], su.widths[dd]
        lo, hi = xx.min() - 7 * ww, xx.max() + 7 * ww
        blo, bhi = -np.inf, np.inf
        if case['reflect'] and (dd == 0):
            if case['seed'] % 3 != 1:
                blo = lo = xx.min() - 0.2 * ww
            if case['seed'] % 3 != 2:
                bhi = hi = xx.max() + 0.3 * ww
        bounds.append((blo, bhi))
        edges.append(np.linspace(lo, hi, num))
    refl = None
    if case['reflect']:
        refl = [[None if not np.isfinite(bb) else bb for bb in bounds[0]]] + [None] * (su.ndim - 1)
    kde = su.kde(flat=False, points=edges, reflect=refl)
    rng = np.random.RandomState(case['seed'])
    pts = np.array([rng.uniform(ee[0], ee[-1], 25) for ee in edges])
    got = kde.cdf(pts)
    name = su.kname
    if su.ndim == 2 and name != 'gaussian':
        raise gen.Skip()
    want, tot = np.zeros(25), 0.0
    for ii in range(su.ndata):
        fac = np.ones(25)
        tt = 1.0
        for dd in range(su.ndim):
            images = [su.data[dd, ii]] + [2 * bb - su.data[dd, ii] for bb in bounds[dd] if np.isfinite(bb)]
            top, low = bounds[dd][1], bounds[dd][0]
            fac = fac * sum(kernel_cdf_1d(name, (pts[dd] - xx) / su.widths[dd]) - kernel_cdf_1d(name, (low - xx) / su.widths[dd]) for xx in images)
            tt = tt * sum(kernel_cdf_1d(name, (top - xx) / su.widths[dd]) - kernel_cdf_1d(name, (low - xx) / su.widths[dd]) for xx in images)
        want += su.wts[ii] * fac
        tot += su.wts[ii] * tt
    step = max((ee[1] - ee[0]) / ww for ee, ww in zip(edges, su.widths))
    if step > 0.5:
        raise gen.Skip()
    close(got, want / tot, 0, 0.02 * step + 2e-4 if name != 'box' else step, 'CDF, relative to the sum over kernels')
    return True, su.labels() + ['reflect=%s' % case['reflect']]


small = st.lists(st.integers(3, 14), min_size=4, max_size=4)
SUBS = [
    Sub('grid', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 3, 1, 25, 150), flat=st.booleans(), argflat=st.booleans(), aslist=st.booleans(), many=st.booleans(),
                                           reflect=gen.choice(False, False, True), points=gen.choice('auto', 'counts', 'edges'), nums=small,
                                           seed=gen.seeds)), check_grid, 400, rule='values of the CDF span at least 0.1'),
    Sub('exact', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 2, 1, 20, covs=False), reflect=st.booleans(), seed=gen.seeds)),
        check_exact, 150, rule='each case'),
    Sub('grid-fine', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 3, 2, 8), flat=st.just(False), argflat=st.just(False), aslist=st.booleans(), many=st.booleans(),
                                                reflect=gen.choice(False, False, True), points=gen.choice('counts', 'counts', 'edges'), nums=st.lists(st.integers(40, 62), min_size=3, max_size=3), most=st.just(250000),
                                                seed=gen.seeds)), check_grid, 5, 60, rule='values of the CDF span at least 0.1'),
    Sub('grid-4d', st.fixed_dictionaries(dict(kde=gen.kde_spec(4, 5, 2, 25), flat=st.just(False), argflat=st.just(False), aslist=st.booleans(), many=st.booleans(),
                                              reflect=gen.choice(False, False, True), points=gen.choice('counts', 'edges'), nums=st.lists(st.integers(2, 6), min_size=5, max_size=5),
                                              seed=gen.seeds)), check_grid, 40, rule='values of the CDF span at least 0.1'),
]
