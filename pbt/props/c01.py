"""Density is the weighted sum of the (normalized) kernels"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, warm, within   # noqa

ID = 'C01'


def compare(vals, pts, su, scale=1.0, what='density'):
    lo, hi = ref.density(pts, su.data, su.wts, su.matrix, su.kname)
    peak = ref.peak(su.wts, su.matrix, su.kname) * scale
    within(vals, lo * scale, hi * scale, 1e-7, 1e-10 * peak, what)
    return np.count_nonzero(lo > 1e-6 * peak / scale)


def check_points(case):
    su = gen.Setup(case['kde'])
    pts = su.points(case['seed'], case['m'])
    kde = su.kde(flat=case['flat'])
    arg = pts
    if case['form'] == 'list':
        arg = [row.tolist() for row in pts]
    elif case['form'] == 'fortran':
        arg = np.asfortranarray(pts)
    elif case['form'] == 'strided':
        arg = np.repeat(pts, 2, axis=1)[:, ::2]
    elif case['form'] == 'flat' and su.ndim == 1:
        arg = pts[0]
    if case['probability']:
        method = kde.pdf if case['pdf'] else (lambda pp: kde.density(pp, probability=True))
        _, vals = method(arg)
        npos = compare(vals, pts, su, 1.0 / np.sum(su.wts), 'pdf')
    else:
        _, vals = kde.density(arg)
        npos = compare(vals, pts, su)
    labs = su.labels() + ['form=' + case['form'], 'prob=%s' % case['probability']]
    return npos > 0 and len(set(np.round(vals / vals.max(), 9))) > 1 if vals.max() > 0 else False, labs


def check_grid(case):
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    edges = []
    for dd in range(su.ndim):
        num = case['nums'][dd]
        ee = np.quantile(su.data[dd], np.sort(rng.uniform(size=num))) + su.widths[dd] * rng.normal(size=num) * 0.5
        edges.append(np.sort(ee) if case['sorted'] else ee)
    arg = edges if case['form'] == 'list' else [ee.tolist() for ee in edges] if case['form'] == 'nested' else tuple(edges)
    kde = su.kde(flat=False)
    back, vals = kde.density(arg, grid=True, probability=case['probability'])
    ensure(vals.shape == tuple(len(ee) for ee in edges), 'grid values have shape %s', vals.shape)
    ensure(len(back) == su.ndim and all(np.array_equal(aa, bb) for aa, bb in zip(back, edges)), 'returned points differ from the given')
    pts = np.array([gg.ravel() for gg in np.meshgrid(*edges, indexing='ij')])
    npos = compare(vals.ravel(), pts, su, 1.0 / np.sum(su.wts) if case['probability'] else 1.0, 'density on grid')
    return npos > 0 and su.ndim > 1 and len(set(vals.shape)) > 1, su.labels() + ['form=' + case['form']]


SIZES = [nn + ii for nn in (1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 30000, 32768, 40000, 50000, 65536) for ii in (-1, 0, 1)]


def size_of(rng, kind):
    """Any number, or one around the sizes of likely blocks"""
    if kind == 0:
        return int(rng.choice(SIZES))
    if kind == 1:
        return int(10 ** rng.uniform(3.0, 4.8))
    return int(kind)


def check_large(case):
    """Many points and/or many data"""
    spec = dict(case['kde'])
    rng = np.random.RandomState(case['seed'])
    # (few data for many points, and the other way around)
    num, mm = [size_of(rng, case['small'][0]), size_of(rng, case['big'])][::case['which']]
    mm = max(1, mm // case['div'])
    spec['data'] = dict(spec['data'], n=num)
    su = gen.Setup(spec)
    kde = su.kde()
    pts = su.points(case['seed'], mm)
    # points at some of the data, in particular the first and the last of them, and at the ends of the points
    num = min(mm, 6)
    own = np.array([su.ndata - 1, 0, su.ndata // 2, su.ndata - 2, 1, rng.randint(su.ndata)])[:num]
    whr = np.array([mm - 1, 0, mm // 2, mm - 2, 1, rng.randint(mm)])[:num]
    pts[:, whr] = su.data[:, own]
    vals = kde.density(pts)[1]
    ensure(vals.shape == (pts.shape[1],), 'shape of density %s', vals.shape)
    sel = np.unique(np.concatenate([whr, rng.randint(pts.shape[1], size=120), np.arange(max(0, mm - 40), mm)]))
    compare(vals[sel], pts[:, sel], su)
    return True, su.labels() + ['M>20000' if mm > 20000 else 'M<=20000', 'N>8000' if su.ndata > 8000 else 'N<=8000']


def check_few(case):
    """One to three data, of any number of dimensions, with the covariance given"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    dd, nn = case['d'], case['n']
    data = rng.normal(size=(dd, nn)) * 10.0 ** rng.uniform(-2, 2)
    mat = rng.normal(size=(dd, dd + 2))
    cov = mat @ mat.T * 10.0 ** rng.uniform(-2, 2)
    bw = float(rng.uniform(0.3, 2.0))
    weights = {'none': None, 'random': rng.uniform(0.1, 5.0, nn), 'same': np.full(nn, 3.0), 'ints': rng.randint(1, 6, nn), 'one': np.ones(nn)}[case['weights']]
    wts = np.ones(nn) if weights is None else np.asarray(weights, float)
    flat = dd == 1 and case['flat']
    kw = dict(weights=weights.tolist() if (weights is not None and case['aslist']) else weights, kernel=case['kernel'])
    kde = kale.KDE(data[0] if flat else data, covariance=float(cov[0, 0]) if flat else cov, bandwidth=bw, **kw)
    matrix = cov * bw ** 2
    pts = data[:, rng.randint(nn, size=12)] + np.sqrt(np.diag(matrix))[:, None] * rng.normal(size=(dd, 12)) * rng.choice([0.3, 1.0], size=12)
    pts[:, 0] = data[:, 0]
    name = case['kernel'] or 'gaussian'
    lo, hi = ref.density(pts, data, wts, matrix, name)
    peak = ref.peak(wts, matrix, name)
    arg = pts[0] if flat else pts
    within(kde.density(arg)[1], lo, hi, 1e-7, 1e-10 * peak, 'density')
    tot = wts.sum()
    within(kde.density(arg, probability=True)[1], lo / tot, hi / tot, 1e-7, 1e-10 * peak / tot, 'pdf')
    # samples are around the data
    samps = np.reshape(kde.resample(7), (dd, 7))
    inv = np.linalg.inv(np.linalg.cholesky(matrix))
    dist = np.min([np.sum((inv @ (samps - data[:, [kk]])) ** 2, axis=0) for kk in range(nn)], axis=0) ** 0.5
    ensure(np.all(dist <= (1 + 1e-7 if name != 'gaussian' else 12.0)), 'samples of %d data are %s kernel-widths from the data', nn, dist.max())
    return True, ['D=%d' % dd, 'N=%d' % nn, 'weights=' + case['weights']]


SUBS = [
    Sub('few', st.fixed_dictionaries(dict(d=st.integers(1, 4), n=st.integers(1, 3), weights=gen.choice('none', 'random', 'same', 'ints', 'one'), kernel=gen.choice(None, *gen.KERNELS), flat=st.booleans(),
                                          aslist=st.booleans(), seed=gen.seeds)), check_few, 120, rule='all'),
    Sub('points', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 7, 1, 40, 300), m=st.integers(1, 40), seed=gen.seeds, probability=st.booleans(), pdf=st.booleans(),
        flat=st.booleans(), form=gen.choice('array', 'array', 'list', 'fortran', 'strided', 'flat'))), check_points, 500,
        rule='at least one point has a density above 1e-6 of the largest possible, and the values differ'),
    Sub('grid', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 3, 1, 30), nums=st.lists(st.integers(1, 6), min_size=3, max_size=3), seed=gen.seeds,
        sorted=st.booleans(), probability=st.booleans(), form=gen.choice('list', 'nested', 'tuple'))), check_grid, 250,
        rule='D > 1, with different numbers of points in some dimensions, and a density above zero'),
    Sub('large', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 3, 500, 4000), small=st.lists(st.integers(20, 1200), min_size=1, max_size=1), big=gen.choice(0, 0, 1, 1, 30000), which=gen.choice(1, -1, -1),
        div=gen.choice(1, 1, 1, 500), seed=gen.seeds)), check_large, 100, 1500,
        rule='each case (up to 65537 data or points)'),
]
ASSUMPTIONS = ['the reference uses numpy.linalg in double precision; values are compared to 1e-7 (relative) + 1e-10 of the peak']
