"""Normalization, positivity, and finite support"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, warm   # noqa

ID = 'C03'
GL_X, GL_W = np.polynomial.legendre.leggauss(6)


def integral_1d(func, breaks):
    """Exact for polynomials (to 11th order) between the given break points"""
    breaks = np.unique(breaks)
    lo, hi = breaks[:-1], breaks[1:]
    xx = 0.5 * (hi + lo)[:, None] + 0.5 * (hi - lo)[:, None] * GL_X
    ww = 0.5 * (hi - lo)[:, None] * GL_W
    return np.sum(func(xx.ravel()) * ww.ravel())


def check_1d(case):
    su = gen.Setup(case['kde'])
    kde = su.kde()
    wid = su.widths[0]
    data = su.data[0]
    if su.finite:
        breaks = np.concatenate([data - wid, data + wid])
    else:
        breaks = (data[:, None] + wid * np.linspace(-8, 8, 33)[None, :]).ravel()
    tot = integral_1d(lambda xx: kde.density(xx)[1], breaks)
    close(tot / np.sum(su.wts), 1.0, 1e-5, 0, 'integral of density, relative to total weight')
    tot = integral_1d(lambda xx: kde.pdf(xx)[1], breaks)
    close(tot, 1.0, 1e-5, 0, 'integral of pdf')
    return True, su.labels()


def check_nd(case):
    """Integrate on a lattice aligned with the smoothing matrix"""
    su = gen.Setup(case['kde'])
    if su.ndata > 40:
        raise gen.Skip()
    kde = su.kde()
    chol = np.linalg.cholesky(su.matrix)
    zz = np.linalg.solve(chol, su.data)
    pad = 1.0 if su.finite else 5.0
    step = {2: {'gaussian': 0.5, 'box': 0.02, 'parabola': 0.05, 'triweight': 0.1},
            3: {'gaussian': 0.6, 'box': 0.1, 'parabola': 0.12, 'triweight': 0.2}}[su.ndim][su.kname]
    rng = np.random.RandomState(case['seed'])
    # the lattice only where there is support:  around each datum
    num = int(np.ceil(pad / step)) + 1
    offs = np.arange(-num, num + 1)
    cells = set()
    base = np.floor(zz / step).astype(int)
    ball = np.array([gg.ravel() for gg in np.meshgrid(*([offs] * su.ndim), indexing='ij')])
    ball = ball[:, np.sum((ball * step) ** 2, axis=0) <= (pad + 2 * step * np.sqrt(su.ndim)) ** 2]
    allc = np.unique(np.concatenate([base[:, [jj]] + ball for jj in range(su.ndata)], axis=1), axis=1)
    if allc.shape[1] * su.ndata > 8e6:
        raise gen.Skip()
    pts = chol @ ((allc + rng.uniform(size=(su.ndim, 1))) * step)
    vals = kde.pdf(pts)[1]
    tot = np.sum(vals) * np.sqrt(np.linalg.det(su.matrix)) * step ** su.ndim
    tol = {2: {'gaussian': 1e-4, 'box': 0.02, 'parabola': 0.005, 'triweight': 0.002},
           3: {'gaussian': 2e-3, 'box': 0.06, 'parabola': 0.02, 'triweight': 0.01}}[su.ndim][su.kname]
    close(tot, 1.0, tol, 0, 'integral of pdf in %d dimensions' % su.ndim)
    return True, su.labels()


def check_radial(case):
    """In any number of dimensions: the density around (well separated) data falls in spherical shells, so integrate their radii"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    ndim, name = case['ndim'], case['kernel']
    scale = 10.0 ** np.array(case['scale'][:ndim])
    low = np.tril(rng.uniform(-0.6, 0.6, size=(ndim, ndim)), -1) + np.eye(ndim)
    cov = (low @ low.T) * np.outer(scale, scale)
    wts = rng.uniform(0.2, 3.0, 3) if case['weighted'] else None
    total = 3.0 if wts is None else wts.sum()
    # so far apart that only one kernel contributes
    data = rng.normal(size=(ndim, 1)) * scale[:, None] + np.array([0.0, 1e3, -2e3])[None, :] * scale[:, None]
    bw = case['bw'] / 10.0
    kde = kale.KDE(data, bandwidth=bw, covariance=cov, weights=wts, kernel=name, helper=False)
    chol = np.linalg.cholesky(cov) * bw
    edge = np.linspace(0.0, 12.0 + ndim if name == 'gaussian' else 1.0, 60)
    lo, hi = edge[:-1], edge[1:]
    rad = (0.5 * (hi + lo)[:, None] + 0.5 * (hi - lo)[:, None] * GL_X).ravel()
    wt = (0.5 * (hi - lo)[:, None] * GL_W).ravel()
    area = ndim * ref.ball_volume(ndim) * rad ** (ndim - 1) * np.prod(np.diag(chol))
    tot = 0.0
    for jj in range(3):
        uu = rng.normal(size=(ndim, rad.size))
        pts = data[:, [jj]] + chol @ (uu / np.linalg.norm(uu, axis=0) * rad)
        vals = kde.density(pts)[1]
        if name != 'gaussian' and np.any(kde.density(data[:, [jj]] + chol @ (uu / np.linalg.norm(uu, axis=0) * 1.01))[1] != 0.0):
            ensure(False, 'density outside of the support of the kernels, in %d dimensions', ndim)
        tot = tot + np.sum(vals * area * wt)
    close(tot / total, 1.0, 1e-6, 0, 'integral of the density in %d dimensions, relative to the total weight' % ndim)
    return True, ['D=%d' % ndim, 'kernel=' + name]


def check_support(case):
    su = gen.Setup(case['kde'])
    kde = su.kde(flat=False)
    rng = np.random.RandomState(case['seed'])
    jj = rng.randint(su.ndata, size=60)
    uu = rng.normal(size=(su.ndim, 60))
    rad = rng.choice([0.0, 0.5, 0.9, 0.99, 0.999, 1.001, 1.01, 1.2, 3.0, 50.0], size=60)
    pts = su.data[:, jj] + np.linalg.cholesky(su.matrix) @ (uu / np.linalg.norm(uu, axis=0) * rad)
    # distance to the nearest datum (with weight), in units of the kernel
    sel = su.wts > 0
    dist = np.full(60, np.inf)
    inv = np.linalg.inv(su.matrix)
    for xx in su.data[:, sel].T:
        dd = pts - xx[:, None]
        dist = np.minimum(dist, np.sqrt(np.maximum(np.einsum('ij,ik,kj->j', dd, inv, dd), 0)))
    vals = kde.density(pts)[1]
    ensure(vals.shape == (60,), 'shape %s', vals.shape)
    ensure(np.all(vals >= 0), 'negative density %s', vals.min())
    ensure(np.all(np.isfinite(vals)), 'density is not finite')
    if su.finite:
        tol = 1e-6
        ensure(np.all(vals[dist > 1 + tol] == 0.0), 'density outside of the support of the kernels: %s', vals[dist > 1 + tol].max(initial=0))
    lim = 1 - 1e-3 if su.finite else 5.0
    ensure(np.all(vals[dist < lim] > 0.0), 'no density within the support of the kernels')
    far = su.data.max(axis=1, keepdims=True) + su.widths[:, None] * 10.0 ** np.arange(2, 14, 2)[None, :]
    ensure(np.all(kde.density(far)[1] == 0.0), 'density very far from the data')
    return bool(np.any(dist > 1) and np.any(dist < 1)), su.labels()


smooth = st.fixed_dictionaries(dict(kind=gen.choice('none', 'scalar', 'vec', 'matrix', 'str'), name=gen.choice('scott', 'silverman'),
                                    vals=st.lists(st.integers(5, 20), min_size=6, max_size=6), rho=gen.choice(0.0, 0.4),
                                    flavor=st.just('array')))
SUBS = [
    Sub('integral_1d', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 1, 1, 40, 300))), check_1d, 300, rule='each case'),
    Sub('integral_nd', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 3, 1, 10, bws=smooth, dists=['normal', 'uniform', 'clusters', 'skew']),
                                                  seed=gen.seeds)), check_nd, 120, 1200, rule='each case'),
    Sub('radial', st.fixed_dictionaries(dict(ndim=st.integers(1, 8), kernel=st.sampled_from(gen.KERNELS), weighted=st.booleans(), seed=gen.seeds,
                                             scale=st.lists(st.integers(-2, 2), min_size=8, max_size=8), bw=st.integers(3, 15))), check_radial, 200,
        rule='each case'),
    Sub('support', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 5, 1, 40, 200), seed=gen.seeds)), check_support, 400,
        rule='some points are inside, and some outside, of the support of the nearest kernel'),
]
