"""Bandwidth / covariance settings determine the smoothing matrix"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Skip, Sub, close, ensure, warm   # noqa

ID = 'C02'


def check_matrix(case):
    su = gen.Setup(case['kde'])
    kde = su.kde(flat=case['flat'])
    sc = np.sqrt(np.abs(np.outer(np.diag(su.covariance), np.diag(su.covariance))))
    close(kde.covariance / sc, su.covariance / sc, 1e-9, 1e-9, 'covariance')
    close(kde.neff, su.neff, 1e-10, 0, 'effective number of data')
    want = ref.bandwidth_matrix(su.ndim, su.neff, su.bw, su.diagonal, su.rescale)
    close(kde.bandwidth, want, 1e-10, 1e-14, 'bandwidth')
    sig = np.outer(su.widths, su.widths)
    close(kde.kernel.matrix / sig, su.matrix / sig, 1e-9, 1e-9, 'smoothing matrix')
    ensure(kde.ndim == su.ndim and kde.ndata == su.ndata, 'ndim=%s, ndata=%s', kde.ndim, kde.ndata)
    return su.ndim > 1 or su.weights is not None, su.labels() + ['diagonal=%s' % su.diagonal, 'rescale=%s' % su.rescale]


def check_magnitude(case):
    """Bandwidths of any magnitude are used as they are"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    dd = su.ndim
    bws = 10.0 ** (np.array(case['logs'][:dd]) / 10.0)
    form = case['form']
    if form == 'vector':
        arg, want = bws, np.diag(bws)
    elif form == 'matrix':
        # (positive definite, with magnitudes that can be inverted)
        bws = bws[0] * np.array([1.0, 3.0, 0.5, 2.0])[:dd]
        want = np.sqrt(np.outer(bws, bws)) * np.sqrt(0.3 ** np.abs(np.arange(dd)[:, None] - np.arange(dd)))
        arg = want
    else:
        arg = float(bws[0]) if form == 'scalar' else [bws[0]]
        want = np.full((dd, dd), bws[0])
    cov = su.covariance
    if case['auto']:
        if su.data.shape[1] < 2:
            raise Skip()
        cov = np.atleast_2d(np.cov(su.data, aweights=su.weights))
    gen.check_cov(cov * want**2)
    kde = kale.KDE(su.data, bandwidth=arg, weights=su.weights, kernel=su.kernel, **({} if case['auto'] else dict(covariance=cov)))
    close(kde.bandwidth, want, 1e-12, 0, 'bandwidth')
    mat = cov * want**2
    sig = np.sqrt(np.outer(np.diag(mat), np.diag(mat)))
    close(kde.kernel.matrix / sig, mat / sig, 1e-9, 1e-12, 'smoothing matrix')
    # samples are spread by as much
    if form in ('scalar', 'one', 'vector'):
        samps = kde.resample(400, squeeze=False)
        wid = np.sqrt(np.diag(mat))
        sel = wid > 1e3 * np.abs(su.data).max(axis=1)
        if np.any(sel):
            ratio = (samps[sel].std(axis=1) / wid[sel]) * np.array([1.0 if su.kname == 'gaussian' else 2.0])
            ensure(np.all((ratio > 0.3) & (ratio < 3.0)), 'samples are spread by %s of the widths of the kernel', ratio)
    return dd > 1, su.labels() + ['form=' + form]


def check_many(case):
    """Covariance, effective number and bandwidths of very many data are the same functions of them"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    nn, ndim = case['num'], case['ndim']
    data = rng.normal(size=(ndim, ndim)) @ rng.normal(size=(ndim, nn)) + case['offset'] * rng.normal(size=(ndim, 1))
    if case['skew']:
        data[0] = np.exp(data[0])
    wts = gen.make_weights(case['weights'], nn)
    ww = np.ones(nn) if wts is None else np.asarray(wts, float)
    pp = ww / ww.max()
    if np.count_nonzero(pp) < 10 * ndim:
        raise Skip()
    neff = pp.sum() ** 2 / (pp ** 2).sum()
    dev = data - (data @ pp)[:, None] / pp.sum()
    cov = (dev * pp) @ dev.T / (pp.sum() - (1.0 if wts is None else (pp ** 2).sum() / pp.sum()))
    gen.check_cov(cov)
    kde = kale.KDE(data, weights=wts, bandwidth=case['rule'], kernel=case['kernel'])
    close(kde.neff, neff, 1e-9, 0, 'effective number of data')
    sig = np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
    close(kde.covariance / sig, cov / sig, 1e-7, 1e-9, 'covariance of %d data' % nn)
    want = ref.bandwidth_matrix(ndim, neff, case['rule'])
    close(kde.bandwidth, want, 1e-9, 1e-14, 'bandwidth of %d data' % nn)
    close(kde.kernel.matrix / sig, cov * want**2 / sig, 1e-7, 1e-9, 'smoothing matrix of %d data' % nn)
    return nn > 4000, ['n=%d' % nn, 'weights=%s' % case['weights']['kind'], 'D=%d' % ndim]


def check_neff(case):
    """A given effective number of data is used for the plugin bandwidths only"""
    su = gen.Setup(case['kde'])
    kde = su.kde(neff=case['neff'])
    want = ref.bandwidth_matrix(su.ndim, float(case['neff']), su.bw, su.diagonal, su.rescale)
    close(kde.bandwidth, want, 1e-10, 1e-14, 'bandwidth for a given neff')
    close(kde.neff, case['neff'], 1e-12, 0, 'neff')
    return su.spec['bw']['kind'] in ('none', 'str', 'mix'), su.labels()


def check_rescale(case):
    """Rescaling by one factor per dimension (of diagonal bandwidths), or by an element-wise matrix"""
    spec = dict(case['kde'], rescale=None)
    su = gen.Setup(spec)
    fact = np.array(case['fact'][:su.ndim]) / 10.0
    base = ref.bandwidth_matrix(su.ndim, su.neff, su.bw, su.diagonal, None)
    diag = np.array_equal(base, np.diag(np.diag(base)))
    if case['form'] == 'matrix':
        arg = np.sqrt(np.outer(fact, fact))
        want = base * arg
    elif diag:
        arg = fact
        want = base * fact
    else:
        arg = fact[:1]
        want = base * fact[0]
    kde = su.kde(bw_rescale=arg.tolist() if case['aslist'] else arg)
    close(kde.bandwidth, want, 1e-10, 1e-14, 'rescaled bandwidth')
    mat = su.covariance * want**2
    gen.check_cov(mat)
    sig = np.sqrt(np.outer(np.diag(mat), np.diag(mat)))
    close(kde.kernel.matrix / sig, mat / sig, 1e-9, 1e-9, 'smoothing matrix of the rescaled bandwidth')
    return su.ndim > 1, su.labels() + ['rescale=%s' % case['form'], 'diagonal=%s' % diag]


def check_observed(case):
    """The width of an isolated kernel, observed from the density itself, follows the smoothing matrix"""
    su = gen.Setup(case['kde'])
    kde = su.kde()
    rng = np.random.RandomState(case['seed'])
    # relative to one datum (weight-dominated by making the others irrelevant: subtract their contribution)
    jj = rng.randint(su.ndata)
    if su.wts[jj] <= 0:
        jj = int(np.argmax(su.wts))
    uu = rng.normal(size=(su.ndim, 12))
    uu = uu / np.linalg.norm(uu, axis=0) * rng.uniform(0.1, 0.95, size=12)
    pts = su.data[:, [jj]] + np.linalg.cholesky(su.matrix) @ uu
    vals = kde.density(pts)[1]
    oth = np.array(su.wts)
    oth[jj] = 0.0
    lo, hi = ref.density(pts, su.data, oth, su.matrix, su.kname)
    one = ref.kernel_raw(su.kname, np.sum(uu**2, axis=0)) / ref.kernel_norm(su.kname, su.ndim)
    one = one * su.wts[jj] / np.sqrt(np.linalg.det(su.matrix))
    peak = ref.peak(su.wts, su.matrix, su.kname)
    ensure(vals.shape == (12,), 'shape %s', vals.shape)
    bad = (vals < (lo + one) * (1 - 1e-6) - 1e-9*peak) | (vals > (hi + one) * (1 + 1e-6) + 1e-9*peak)
    ensure(not np.any(bad), 'density near to a datum does not have the shape of its kernel: %s vs %s', vals[bad], (lo + one)[bad])
    return True, su.labels()


plug = st.fixed_dictionaries(dict(kind=gen.choice('none', 'str', 'str', 'mix', 'scalar'), name=gen.choice('scott', 'silverman'),
                                  vals=st.lists(st.integers(2, 20), min_size=6, max_size=6), rho=st.just(0.0),
                                  flavor=st.just('list')))

SUBS = [
    Sub('matrix', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 5, 1, 40, 300), flat=st.booleans())), check_matrix, 700,
        rule='D > 1 or weighted'),
    Sub('magnitude', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 20), logs=st.lists(st.integers(-80, 80), min_size=4, max_size=4), form=gen.choice('scalar', 'one', 'vector', 'vector', 'matrix'),
                                                auto=st.booleans(), seed=gen.seeds)), check_magnitude, 150, rule='D > 1'),
    Sub('many', st.fixed_dictionaries(dict(num=gen.choice(1000, 4097, 10001, 20000, 65537, 131073), ndim=st.integers(1, 5), offset=gen.choice(0.0, 1.0, 1e3, -1e5), skew=st.booleans(),
                                           weights=gen.weight_spec(), rule=gen.choice(None, 'scott', 'silverman', 0.3), kernel=st.sampled_from(gen.KERNELS), seed=gen.seeds)),
        check_many, 60, 600, rule='more than 4000 data'),
    Sub('neff', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 30, bws=plug), neff=gen.choice(2, 3, 10, 57, 1000, 12.5))),
        check_neff, 250, rule='a bandwidth is chosen by a rule (scott or silverman)'),
    Sub('rescale', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 30), fact=st.lists(st.integers(2, 30), min_size=4, max_size=4),
                                              form=gen.choice('vector', 'vector', 'matrix'), aslist=st.booleans())),
        check_rescale, 200, rule='D > 1'),
    Sub('observed', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 30), seed=gen.seeds)), check_observed, 250,
        rule='each case'),
]
