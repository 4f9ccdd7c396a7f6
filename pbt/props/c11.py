"""Resampling follows the density"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, chi2_test, ensure, kernel_marginal_cdf, ks_test, order_test, warm   # noqa

ID = 'C11'


def mixture_cdf(name, ndim, cents, wts, width):
    wts = np.asarray(wts, float) / np.sum(wts)

    def func(xx):
        out = np.zeros(np.shape(xx))
        for cc, ww in zip(cents, wts):
            if ww > 0:
                out += ww * kernel_marginal_cdf(name, ndim, (xx - cc) / width)
        return out
    return func


def draw(kde, case, **kw):
    """(D, num) samples: in one call, or from many calls for few samples (at least in total `num`)"""
    num, part = case['num'], case['part']
    if part == 0:
        return kde.resample(num, squeeze=False, **kw)
    first = kde.resample(None if part < 0 else part, squeeze=False, **kw)
    size = first.shape[1]
    rest = [kde.resample(None if part < 0 else part, squeeze=False, **kw) for _ in range(int(min(num / size, 500)))]
    return np.concatenate([first] + rest, axis=1)


def check_projections(case):
    """Linear combinations of the samples are distributed as a sum over the kernels: in any direction, the (whitened)
    kernels are spherical, so that their distribution along one direction is known"""
    su = gen.Setup(case['kde'])
    kde = su.kde(**(dict(chunk=case['chunk']) if case['chunk'] else dict()))
    samps = draw(kde, case)
    rng = np.random.RandomState(case['seed'])
    dirs = [np.eye(su.ndim)[dd] for dd in range(su.ndim)]
    dirs += [rng.normal(size=su.ndim) for _ in range(2 if su.ndim > 1 else 0)]
    # (the narrowest direction of the kernel is the most sensitive to its covariance)
    if su.ndim > 1:
        dirs.append(np.linalg.eigh(su.matrix / np.outer(su.widths, su.widths))[1][:, 0])
    for aa in dirs:
        aa = aa / su.widths
        width = np.sqrt(aa @ su.matrix @ aa)
        cdf = mixture_cdf(su.kname, su.ndim, aa @ su.data, su.wts, width)
        ks_test(aa @ samps, cdf, 'samples along %s' % (aa * su.widths).round(3).tolist())
        order_test(aa @ samps, 'samples along %s' % (aa * su.widths).round(3).tolist())
    return True, su.labels() + ['part=%d' % case['part'], 'chunk=%s' % case['chunk']]


def check_radius(case):
    """Kernels around well separated data: which datum, and where within its kernel"""
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    ndim, ndata = su.ndim, min(su.ndata, 12)
    cents = (np.arange(ndata) * 40.0 + rng.uniform(-1, 1, (ndim, ndata)))
    cents[1:] = cents[1:][:, rng.permutation(ndata)]
    wts = gen.make_weights(case['kde']['weights'], ndata)
    ww = np.ones(ndata) if wts is None else np.asarray(wts, float)
    sig = su.matrix / np.outer(su.widths, su.widths)
    import kalepy as kale
    kde = kale.KDE(cents, bandwidth=np.ones((ndim, ndim)), covariance=sig, weights=wts, kernel=su.kernel,
                   **(dict(chunk=case['chunk']) if case['chunk'] else dict()))
    keep = [dd for dd in range(ndim) if (case['keep'] >> dd) & 1][:ndim - 1]
    samps = draw(kde, case, keep=keep or None)
    num = samps.shape[1]
    near = np.argmin(np.abs(samps[0][:, None] - cents[0][None, :]), axis=1)
    counts = np.bincount(near, minlength=ndata)
    chi2_test(counts, ww, 'how often each datum was drawn')
    diff = samps - cents[:, near]
    ensure(np.all(diff[keep] == 0.0), 'kept parameters differ from the datum')
    rest = [dd for dd in range(ndim) if dd not in keep]
    for dd in rest:
        ks_test(diff[dd], lambda xx: kernel_marginal_cdf(su.kname, ndim, xx / np.sqrt(sig[dd, dd])), 'offsets of dimension %d' % dd)
    if not keep:
        # distance from the center: r^(D-1) times the kernel
        y2 = (np.linalg.solve(np.linalg.cholesky(sig), diff) ** 2).sum(axis=0)
        from scipy import stats
        if su.kname == 'gaussian':
            ks_test(y2, lambda xx: stats.chi2.cdf(xx, ndim), 'distance from the center of the kernel')
        else:
            order = dict(box=0, parabola=1, triweight=3)[su.kname]
            ks_test(y2, lambda xx: stats.beta.cdf(np.clip(xx, 0, 1), ndim / 2.0, order + 1), 'distance from the center of the kernel')
    # offsets do not depend on the datum
    if ndata >= 4:
        first = near < ndata // 2
        if 200 < first.sum() < num - 200:
            dd = rest[0]
            ks_test(diff[dd][first], lambda xx: kernel_marginal_cdf(su.kname, ndim, xx / np.sqrt(sig[dd, dd])), 'offsets of half of the data')
    return True, su.labels() + ['keep=%d' % len(keep), 'part=%d' % case['part'], 'chunk=%s' % case['chunk']]


def check_repeats(case):
    """Samples are independent of one another: how often two samples of a call are drawn around the same datum"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    nn = case['ndata']
    ndim = case['ndim']
    cents = rng.uniform(-1, 1, (ndim, nn))
    cents[0] = 40.0 * rng.permutation(nn)
    wts = gen.make_weights(case['weights'], nn)
    pp = np.ones(nn) / nn if wts is None else np.asarray(wts, float) / np.sum(np.asarray(wts, float))
    if np.sum(pp ** 2) > 0.5:
        raise gen.Skip()
    refl = [[-1000.0, None]] + [None] * (ndim - 1) if case['reflect'] else None
    kde = kale.KDE(cents, bandwidth=1.0, covariance=np.eye(ndim), diagonal=True, weights=wts, kernel=case['kernel'], reflect=refl)
    size = {'less': max(nn // 2, 2), 'same': nn, 'none': None, 'more': nn + 3}[case['size']]
    keep = ndim - 1 if case['keep'] and ndim > 1 else None
    runs = 150
    same = 0
    for _ in range(runs):
        xx = kde.resample(size, keep=keep, squeeze=False)
        cnt = np.bincount(np.argmin(np.abs(xx[0][:, None] - cents[0]), axis=1), minlength=nn)
        ensure(cnt.sum() == (size or nn), '%d samples', cnt.sum())
        same += (cnt * (cnt - 1)).sum() / 2
    num = size or nn
    s2, s3 = np.sum(pp ** 2), np.sum(pp ** 3)
    mean = runs * num * (num - 1) / 2 * s2
    var = runs * (num * (num - 1) / 2 * (s2 - s2 ** 2) + num * (num - 1) * (num - 2) * (s3 - s2 ** 2))
    ensure(abs(same - mean) < 8 * np.sqrt(var) + 20, '%d pairs of samples at the same datum, instead of %.1f +- %.1f', same, mean, np.sqrt(var))
    return mean > 8 * np.sqrt(var) + 20, ['size=' + case['size'], 'weights=%s' % (wts is not None), 'reflect=%s' % case['reflect']]



def check_light(case):
    """Data of small weights are drawn too, as often as their weights"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    nn, ndim = case['ndata'], case['ndim']
    # weights spanning orders of magnitude, with many data of small weight
    ww = 10.0 ** rng.uniform(-case['decades'], 0.0, nn)
    ww[rng.randint(nn)] = 1.0
    if case['zeros']:
        ww[rng.randint(nn)] = 0.0
    ww = ww * case['unit']
    if case['sort']:
        ww = np.sort(ww)[::case['sort']]
    cents = rng.uniform(-1, 1, (ndim, nn))
    cents[0] = 40.0 * rng.permutation(nn)
    refl = [[-1000.0, None]] + [None] * (ndim - 1) if case['reflect'] else None
    kde = kale.KDE(cents, bandwidth=1.0, covariance=np.eye(ndim), diagonal=True, weights=ww, kernel=case['kernel'], reflect=refl)
    num = 100000
    xx = kde.resample(num, squeeze=False)
    near = np.clip(np.rint(xx[0] / 40.0), 0, nn - 1)
    at = np.argsort(cents[0])
    cnt = np.empty(nn)
    cnt[at] = np.bincount(near.astype(int), minlength=nn)
    chi2_test(cnt, ww, 'how often each datum was drawn')
    # all of the data of the smaller weights together
    for frac in [1e-3, 3e-3, 1e-2, 0.1]:
        light = (ww < frac * ww.max())
        prob = ww[light].sum() / ww.sum()
        mean = num * prob
        if mean > 30:
            ensure(abs(cnt[light].sum() - mean) < 8 * np.sqrt(mean), 'data of weights below %s of the largest were drawn %d times instead of %.0f', frac, cnt[light].sum(), mean)
    light = ww < 0.01 * ww.max()
    return num * ww[light].sum() / ww.sum() > 100, ['reflect=%s' % case['reflect'], 'decades=%d' % case['decades'], 'zeros=%s' % case['zeros']]


def check_displaced(case):
    """The displacements from the data are all different, independent of one another, and of the datum"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    nn, ndim = case['ndata'], case['ndim']
    cents = rng.uniform(-1, 1, (ndim, nn))
    cents[0] = 40.0 * rng.permutation(nn)
    wts = gen.make_weights(case['weights'], nn)
    refl = [[-1000.0, None]] + [None] * (ndim - 1) if case['reflect'] else None
    kde = kale.KDE(cents, bandwidth=1.0, covariance=np.eye(ndim), diagonal=True, weights=wts, kernel=case['kernel'], reflect=refl)
    num = case['num']
    parts = [kde.resample(num, squeeze=False) for _ in range(2 if num < 30000 else 1)]
    size = sum(pp.shape[1] for pp in parts)
    xx = np.concatenate(parts, axis=1)
    ensure(xx.shape == (ndim, num * len(parts)), 'shape %s', xx.shape)
    near = np.argmin(np.abs(xx[0][:, None] - np.sort(cents[0])), axis=1)
    near = np.argsort(cents[0])[near]
    disp = xx - cents[:, near]
    for dd in range(ndim):
        uniq = np.unique(disp[dd]).size
        ensure(uniq > 0.99 * size, 'only %d different displacements of %d samples in dimension %d', uniq, size, dd)
    lim = 8.0 / np.sqrt(size)
    rank = np.argsort(np.argsort(near + rng.uniform(0, 1e-3, size)))
    for dd in range(ndim):
        for vals in (disp[dd], np.abs(disp[dd])):
            for lag in sorted({1, 2, 3, 4, 7, 10, 64, num // 2, num // 3, num - 1, num}):
                if 0 < lag <= size // 2:
                    cc = np.corrcoef(vals[lag:], vals[:-lag])[0, 1]
                    ensure(abs(cc) < 8.0 / np.sqrt(size - lag), 'displacements of samples %d apart are correlated by %.3f (%d samples)', lag, cc, size)
            cc = np.corrcoef(vals, np.arange(size))[0, 1]
            ensure(abs(cc) < lim, 'displacements depend on the number of the sample by %.3f (%d samples)', cc, size)
            if nn > 1:
                cc = np.corrcoef(vals, rank)[0, 1]
                ensure(abs(cc) < lim, 'displacements depend on the datum by %.3f (%d samples)', cc, size)
    return True, ['reflect=%s' % case['reflect'], 'size=%d' % num]


wts = ['none', 'uniform', 'lognormal', 'zeros', 'concentrated', 'ints']
SUBS = [
    Sub('projections', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 5, 1, 20, 60, weights=wts), num=gen.choice(4000, 12000, 4999), part=gen.choice(0, 0, 0, -1, 10, 50, 401), chunk=gen.choice(None, None, 37, 1000, 3000), seed=gen.seeds)),
        check_projections, 440, rule='each case (a goodness of fit of usually thousands of samples, in each dimension and in other directions)'),
    Sub('separate', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 5, 1, 10, weights=wts), num=gen.choice(4000, 12000, 4999), part=gen.choice(0, 0, 0, -1, 10, 50, 401), chunk=gen.choice(None, None, 37, 1000, 3000), seed=gen.seeds,
                                               keep=gen.choice(0, 0, 1, 2, 3))),
        check_radius, 440, rule='each case (at least 500 samples, usually thousands)'),
    Sub('repeats', st.fixed_dictionaries(dict(ndata=st.integers(2, 60), ndim=st.integers(1, 3), weights=gen.weight_spec(wts), kernel=gen.choice('gaussian', 'box', 'triweight'),
                                              size=gen.choice('less', 'same', 'none', 'more'), keep=st.booleans(), reflect=gen.choice(False, False, True), seed=gen.seeds)),
        check_repeats, 300, rule='enough pairs at the same datum are expected for none to be noticed'),
    Sub('light', st.fixed_dictionaries(dict(ndata=st.integers(3, 300), ndim=st.integers(1, 3), decades=gen.choice(2, 3, 4, 5), zeros=st.booleans(), unit=gen.choice(1.0, 1e-12, 1e8),
                                            sort=gen.choice(0, 0, 1, -1), kernel=gen.choice('gaussian', 'box', 'triweight'), reflect=gen.choice(False, False, True), seed=gen.seeds)),
        check_light, 120, rule='more than 100 samples are expected of data with less than 1% of the largest weight'),
    Sub('displaced', st.fixed_dictionaries(dict(ndata=gen.choice(1, 2, 5, 30), ndim=st.integers(1, 4), weights=gen.weight_spec(wts), num=gen.choice(1500, 4001, 9000, 25000, 70000),
                                                kernel=gen.choice('gaussian', 'box', 'triweight'), reflect=gen.choice(False, False, True), seed=gen.seeds)),
        check_displaced, 40, rule='each case (thousands of samples)'),
]
