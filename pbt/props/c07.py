"""Equivariance: permutations, translations, and (per-dimension or linear) changes of units"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .c06 import close_box
from .util import Sub, close, ensure, warm   # noqa

ID = 'C07'


def cmpr(su):
    return close if su.kname != 'box' else close_box


def check_permute(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    perm = rng.permutation(su.ndata)
    pts = su.points(case['seed'], 20)
    kw = su.kwargs()
    refl = [[su.data[dd].min() - 0.1 * su.widths[dd], None] for dd in range(su.ndim)] if case['reflect'] else None
    base = kale.KDE(su.data, reflect=refl, **kw).density(pts)[1]
    if su.weights is not None:
        kw['weights'] = su.weights[perm]
    vals = kale.KDE(su.data[:, perm], reflect=refl, **kw).density(pts)[1]
    cmpr(su)(vals, base, 1e-7, 1e-10 * ref.peak(su.wts, su.matrix, su.kname), 'density of re-ordered data')
    # order of the points, and each by itself
    pp = rng.permutation(20)
    kde = kale.KDE(su.data, reflect=refl, **su.kwargs())
    close(kde.density(pts[:, pp])[1], base[pp], 1e-12, 0, 'density at re-ordered points')
    one = kde.density(pts[:, [3]])[1]
    close(np.ravel(one), base[[3]], 1e-12, 0, 'density at a single point')
    return su.weights is not None, su.labels()


def fac_peak(su, sel):
    """Highest possible density of some of the parameters, of a single kernel"""
    sel = list(sel)
    return 1.0 / np.sqrt(np.linalg.det(su.matrix[np.ix_(sel, sel)])) / ref.kernel_norm(su.kname, len(sel))


def check_units(case):
    """A change of units (and sign, and order) of each dimension"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    dd = su.ndim
    rng = np.random.RandomState(case['seed'])
    scale = np.array(case['sign'][:dd]) * 10.0 ** np.array(case['log'][:dd]) * rng.uniform(0.5, 2, dd)
    order = np.array([ii for ii in case['order'] if ii < dd])
    if np.ptp(np.log10(np.abs(scale))) > 8:
        raise gen.Skip()
    shift = rng.normal(size=dd) * case['shift'] * su.widths

    def move(xx):
        return ((xx + shift[:, None]) * scale[:, None])[order]

    kw = su.kwargs()
    pts = su.points(case['seed'], 20)
    base = kale.KDE(su.data, **kw).density(pts)[1]
    if su.cov is not None:
        kw['covariance'] = (su.cov * np.outer(scale, scale))[np.ix_(order, order)]
    bw = su.bw
    if bw is not None and not isinstance(bw, str) and np.size(bw) > 1:
        arr = np.asarray(bw, dtype=object)
        bw = [arr[ii] for ii in order] if arr.ndim == 1 else np.asarray(bw, float)[np.ix_(order, order)]
        kw['bandwidth'] = bw
    vals = kale.KDE(move(su.data), **kw).density(move(pts))[1] * np.prod(np.abs(scale))
    cmpr(su)(vals, base, 1e-6, 1e-8 * ref.peak(su.wts, su.matrix, su.kname), 'density after a change of units')
    # for some of the parameters, and with boundaries
    refl = None
    if case['reflect']:
        refl = [[su.data[ii].min() - 0.3 * su.widths[ii], None] if case['order'][ii] % 2 else [None, su.data[ii].max() + 0.1 * su.widths[ii]] if ii else None
                for ii in range(dd)]
        if all(rr is None for rr in refl):
            refl = None
    kk0 = kale.KDE(su.data, reflect=refl, **su.kwargs())
    mrefl = None
    if refl is not None:
        mrefl = []
        for ii in order:
            if refl[ii] is None:
                mrefl.append(None)
                continue
            pair = [None if bb is None else (bb + shift[ii]) * scale[ii] for bb in refl[ii]]
            mrefl.append(pair[::-1] if scale[ii] < 0 else pair)
    kk1 = kale.KDE(move(su.data), reflect=mrefl, **kw)
    sel = [ii for ii in range(dd) if (case['select'] >> ii) & 1] or [0]
    sel = sel[::-1] if case['seed'] % 2 else sel
    where = [int(np.argmax(order == ii)) for ii in sel]
    fac = np.prod(np.abs(scale[sel]))
    for params in ([True, False] if len(sel) < dd or refl is not None else [True]):
        if params:
            b0 = kk0.density(pts[sel], params=sel)[1]
            b1 = kk1.density(move(pts)[where], params=where)[1] * fac
        else:
            b0, b1 = kk0.density(pts)[1], kk1.density(move(pts))[1] * np.prod(np.abs(scale))
        near = np.ones(b0.shape, bool)
        if refl is not None:
            for ii in range(dd):
                for bb in (refl[ii] or []):
                    if bb is not None:
                        near &= np.abs(pts[ii] - bb) > 1e-6 * su.widths[ii]
        cmpr(su)(b1[near], b0[near], 1e-6, 1e-7 * max(b0.max(), 1e-3 * fac_peak(su, sel if params else range(dd))), 'density (params=%s, reflect=%s) after a change of units' % (sel if params else None, refl is not None))
    return np.any(base > 0), su.labels() + ['flip=%s' % np.any(scale < 0), 'reordered=%s' % np.any(np.diff(order) < 0)]


def check_linear(case):
    """Any linear transformation, when the smoothing matrix is proportional to the covariance"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    # (also if only the diagonal was to be used)
    gen.check_cov(su.covariance)
    rng = np.random.RandomState(case['seed'])
    qq = np.linalg.qr(rng.normal(size=(su.ndim, su.ndim)))[0]
    mat = qq @ np.diag(rng.uniform(0.3, 3, su.ndim)) @ np.linalg.qr(rng.normal(size=(su.ndim, su.ndim)))[0]
    std = su.data.std(axis=1, keepdims=True)
    data = su.data / std
    pts = su.points(case['seed'], 20) / std
    kw = dict(weights=su.weights, kernel=su.kernel, bandwidth=su.bw)
    k0 = kale.KDE(data, **kw)
    base = k0.density(pts)[1]
    off = rng.normal(size=(su.ndim, 1)) * 3
    kde = kale.KDE(mat @ data + off, **kw)
    vals = kde.density(mat @ pts + off)[1] * np.abs(np.linalg.det(mat))
    cmpr(su)(vals, base, 1e-5, 1e-7 * ref.peak(su.wts, k0.kernel.matrix, su.kname), 'density after a linear transformation')
    return np.any(base > 0), su.labels()


scalar = st.fixed_dictionaries(dict(kind=gen.choice('none', 'scalar', 'str'), name=gen.choice('scott', 'silverman'),
                                    vals=st.lists(st.integers(3, 20), min_size=6, max_size=6), rho=st.just(0.0), flavor=st.just('array')))
SUBS = [
    Sub('permute', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 30, 200), seed=gen.seeds, reflect=st.booleans())),
        check_permute, 300, rule='weighted'),
    Sub('units', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 4, 1, 25), seed=gen.seeds, log=st.lists(st.integers(-7, 7), min_size=4, max_size=4),
        sign=st.lists(gen.choice(1, 1, -1), min_size=4, max_size=4), order=st.permutations([0, 1, 2, 3]), shift=gen.choice(0, 1, 30),
        reflect=gen.choice(False, False, True), select=st.integers(1, 15))),
        check_units, 400, rule='the density is above zero at some point'),
    Sub('linear', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 2, 25, bws=scalar, covs=False, offsets=False), seed=gen.seeds)),
        check_linear, 250, rule='the density is above zero at some point'),
]
